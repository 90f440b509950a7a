#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
base = ("Seeded search over simulated executions: a clean run is evidence, not proof. The shipped programs (async and sync builds) run unmodified "
        "over a simulated operating system in one process each; the library runs on simulated devices, filesystems and executor. "
        "Trusted: the simulator's model of the host, the independent image reader/builder and models in xsim. ")
notes = {
 "C01": "Success outputs compared with the source tree by an independent reader.",
 "C02": "Every output parsed by a validator that shares no code with the repository.",
 "C03": "Source images built by an independent builder with foreign layouts and partition offsets.",
 "C04": "Extracted trees compared entry by entry; benign faults include failing dup and missing in-kernel copy.",
 "C05": "One to three hard faults, a disk-full budget or a source mutation per run; failures of close() are not injected.",
 "C06": "Kills at an operation or inside a write; kill of the process, not power loss. Library: fresh device only.",
 "C07": "Kills and errors of the rewrite sequence and of aliasing outputs; path resolution itself is not made to fail.",
 "C08": "Answers of all reading commands and library calls compared with a model of the image.",
 "C09": "Sampled corruption of uncompressed images, with and without read failures; bound on simulated operations.",
 "C10": "Every modifying host operation is checked against the destination, not only the end state; nothing real is reachable.",
 "C11": "Metamorphic: equal contents in several layouts, single edits. Known finding: hash input has no delimiters.",
 "C12": "Output decoded by an independent CSO decoder and read back by the commands. Multi-part images above 4 GB and damaged CSO files are not covered. Known finding: last index entry.",
 "C13": "Reference implementation of the rules over the same glob crate (wax): glob semantics themselves are trusted.",
 "C14": "The real daemon answers a simulated kernel's requests over a socket pair.",
 "C15": "As C14, with enumeration histories.",
 "C16": "As C14, with read failures placed at image reads between and within requests.",
 "C17": "Failure or abandonment at device operations, then repetition; interleaving of several tasks under a seeded scheduler.",
 "C18": "Table of limits and their neighbours, listing orders, and host failures on the way to the refusal.",
 "C19": "Progress history and printed progress compared with the parsed output.",
 "C20": "Launcher and daemon processes over the simulated OS; the order of their steps is delayed by the simulator at the pipe and mount calls.",
 "C21": "The command functions of the desktop app run over the simulated OS; the stand-in for tauri only records the emitted events.",
 "C22": "The operations and file system adapters of the web app run natively (64-bit) over a simulated browser: promises, listings, file snapshots, writable streams. Behaviour specific to wasm32 or to one browser is not covered.",
 "C23": "A small program (devs) runs operation histories on the library's devices over the simulated OS; compared byte by byte with a model that knows which writes may have been lost.",
 "C24": "Generated command lines, rules, specification files and host paths run through every command of both builds, the extract-xiso name and the mount program; the texts come from a table of awkward pieces and their combinations.",
 "C25": "The real components of the three pages run on a small yew written for this, over the simulated browser of C22, with a simulated user; layout, styles and texts are not judged, nor the order in which a real yew renders.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = [{
    "property": i,
    "quick_cmd": f"./check {i} quick",
    "thorough_cmd": f"./check {i} thorough",
    "evidence_file": f"evidence/{i}.json",
    "technique": "deterministic simulation with fault injection",
    "level": "exploration",
    "level_note": base + notes[i],
} for i in ids if i in notes]
m = {
    "version": 1,
    "setup_cmd": "bash build.sh",
    "checks": checks,
    "not_applicable": [{
        "property": "W01",
        "reason": "This is about real browsers, web views and JavaScript, none of which is here; what of the app can run under a simulator (pages, file pickers, operations, desktop commands) is covered by C21, C22 and C25.",
    }],
    "notes": "No hooks in /repo: seams are the dynamic linker (simos preload for the shipped binaries) and the library's own traits (BlockDeviceRead/Write, FilesystemHierarchy, FilesystemCopier, Copier), the tauri crate (desktop app), the browser binding crates and yew (web app). /repo carries only fix: commits.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
