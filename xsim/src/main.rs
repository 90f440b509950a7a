#![allow(dead_code)]
//! xsim: deterministic simulation of the xdvdfs programs and library.
#[path = "../../common/simfmt.rs"]
mod simfmt;
mod args;
mod build;
mod cso;
mod desk;
mod devs;
mod exec;
mod fusek;
mod gen;
mod image;
mod known;
mod libsim;
mod multi;
mod pages;
mod proc;
mod rcmd;
mod run;
mod scn;
mod shrink;
mod simdisk;
mod tree;
mod wcmd;

use scn::*;
use simfmt::*;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

#[derive(Default, serde::Serialize, serde::Deserialize)]
struct Stats {
    evals: u64,
    bases: u64,
    derived: u64,
    nontrivial: HashSet<u64>,
    traces: HashSet<u64>,
    nops: u64,
    clock_ns: u64,
    procs: u64,
    lib_runs: u64,
    suspends: u64,
    success: u64,
    fired: BTreeMap<String, u64>,
    variants: BTreeMap<String, u64>,
    notes: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
}
impl Stats {
    fn add(&mut self, s: &Scn, o: &Outcome, derived: bool) {
        self.evals += 1;
        if derived {
            self.derived += 1
        } else {
            self.bases += 1
        }
        let h = mix2(o.hash, fnv(9, s.variant.as_bytes()));
        self.traces.insert(h);
        if o.nontrivial {
            let id = fnv(mix2(h, s.seed), &[s.faults.len() as u8]);
            self.nontrivial.insert(id);
        }
        self.nops += o.nops;
        self.clock_ns += o.clock_ns;
        self.procs += o.procs;
        self.lib_runs += o.lib_runs;
        self.suspends += o.suspends;
        self.success += o.exit_ok as u64;
        for (k, n) in &o.fired {
            *self.fired.entry(k.clone()).or_default() += n;
        }
        *self.variants.entry(s.variant.clone()).or_default() += 1;
        if let Some(n) = &o.note {
            *self.notes.entry(n.clone()).or_default() += 1;
        }
        if o.nontrivial && self.samples.len() < 4 && s.tree.len() <= 6 && self.variants[&s.variant] == 1 {
            self.samples.push(serde_json::json!({"scenario": s, "operations": o.nops, "succeeded": o.exit_ok, "faults_fired": o.fired}));
        }
    }
    fn merge(&mut self, x: Stats) {
        self.evals += x.evals;
        self.bases += x.bases;
        self.derived += x.derived;
        self.nontrivial.extend(x.nontrivial);
        self.traces.extend(x.traces);
        self.nops += x.nops;
        self.clock_ns += x.clock_ns;
        self.procs += x.procs;
        self.lib_runs += x.lib_runs;
        self.suspends += x.suspends;
        self.success += x.success;
        for (k, n) in x.fired {
            *self.fired.entry(k).or_default() += n;
        }
        for (k, n) in x.variants {
            *self.variants.entry(k).or_default() += n;
        }
        for (k, n) in x.notes {
            *self.notes.entry(k).or_default() += n;
        }
        for y in x.samples {
            if self.samples.len() < 4 {
                self.samples.push(y);
            }
        }
    }
}

struct Args {
    v: Vec<String>,
}
impl Args {
    fn get(&self, k: &str) -> Option<String> {
        let i = self.v.iter().position(|a| a == k)?;
        self.v.get(i + 1).cloned()
    }
    fn has(&self, k: &str) -> bool {
        self.v.iter().any(|a| a == k)
    }
}

fn env_of(a: &Args) -> run::Env {
    let t = a.get("--target").unwrap_or("/verif/target".into());
    run::Env {
        cli: format!("{}/cli/debug/xdvdfs", t),
        cli_sync: format!("{}/clisync/debug/xdvdfs", t),
        fsd: format!("{}/cli/debug/xdvdfsd", t),
        desk: format!("{}/desk/debug/desk", t),
        web: format!("{}/web/debug/web", t),
        devs: format!("{}/devs/debug/devs", t),
        stdfs: format!("{}/devs/debug/stdfs", t),
        pages: format!("{}/web/debug/pages", t),
        dpages: format!("{}/dpages/debug/dpages", t),
        simos: format!("{}/simos/release/libsimos.so", t),
        probe: std::env::current_exe().unwrap().to_string_lossy().into_owned(),
    }
}

fn main() {
    libsim::install_panic_hook();
    let args = Args { v: std::env::args().collect() };
    let env = env_of(&args);
    match args.v.get(1).map(|s| s.as_str()) {
        Some("check") => check(&args, &env),
        Some("replay") => replay(&args, &env),
        Some("one") => one(&args, &env),
        _ => {
            eprintln!("usage: xsim check PROP --tier quick|thorough --seed N --secs S | replay FILE | one PROP IDX");
            std::process::exit(2);
        }
    }
}

fn check(a: &Args, env: &run::Env) {
    let prop = a.v[2].clone();
    let tier = a.get("--tier").unwrap_or("quick".into());
    let thorough = tier == "thorough";
    let vseed: u64 = a.get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: u64 = a.get("--secs").and_then(|s| s.parse().ok()).unwrap_or(20);
    let limit: u64 = a.get("--runs").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    let workers: usize = a.get("--workers").and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4));
    let min_runs: u64 = a.get("--min-runs").and_then(|s| s.parse().ok()).unwrap_or(100);
    let dir = a.get("--dir").unwrap_or("/verif".into());
    let hashes = a.get("--hashes");
    let keep = hashes.is_some();
    let seed = mix2(vseed, fnv(3, prop.as_bytes()));
    let t0 = Instant::now();
    let cx = wcmd::Cx { env, thorough };
    proc::damaged_images(&prop);

    let (known_lines, unlisted) = known::known(&cx, &prop, &dir);

    // shared: next index, stop flag, and per worker what it is doing
    let sh = proc::shared(8 + workers * 4);
    let deadline = t0 + Duration::from_secs(secs);
    let mut fails: Vec<(u64, usize, Scn, String)> = unlisted.into_iter().map(|(s, v)| (0, 0, s, v)).collect();
    let mut harness: Vec<String> = vec![];
    let mut st = Stats::default();
    let mut all_hashes: Vec<(u64, usize, u64)> = vec![];
    let mut kids: Vec<proc::Kid> = (0..workers)
        .map(|w| {
            let (cx, prop) = (&cx, prop.as_str());
            proc::fork(proc::mem_limit(), 0, move || {
                let mut r = WorkerResult::default();
                let slot = &sh[8 + w * 4..12 + w * 4];
                loop {
                    let idx = sh[0].fetch_add(1, Ordering::SeqCst);
                    if sh[1].load(Ordering::SeqCst) != 0 || idx >= limit || (Instant::now() > deadline && idx >= min_runs) {
                        break;
                    }
                    let begin = |k: usize| {
                        slot[0].store(idx + 1, Ordering::SeqCst);
                        slot[1].store(k as u64, Ordering::SeqCst);
                        slot[2].fetch_add(1, Ordering::SeqCst);
                    };
                    begin(0);
                    let base = gen::gen(prop, idx, seed, thorough);
                    let o = exec::exec(cx, &base);
                    r.st.add(&base, &o, false);
                    if keep {
                        r.hashes.push((idx, 0, o.hash));
                    }
                    if r.note(&base, &o, idx, 0) {
                        if !r.fails.is_empty() {
                            sh[1].store(1, Ordering::SeqCst);
                        }
                        continue;
                    }
                    if gen::has_derived(prop) {
                        for (k, s) in gen::derive(&base, &o, thorough).into_iter().enumerate() {
                            begin(k + 1);
                            let o = exec::exec(cx, &s);
                            r.st.add(&s, &o, true);
                            if keep {
                                r.hashes.push((idx, k + 1, o.hash));
                            }
                            if r.note(&s, &o, idx, k + 1) {
                                if !r.fails.is_empty() {
                                    sh[1].store(1, Ordering::SeqCst);
                                }
                                break;
                            }
                        }
                    }
                }
                slot[0].store(0, Ordering::SeqCst);
                serde_json::to_vec(&r).unwrap()
            })
        })
        .collect();
    let mut seen: Vec<(u64, Instant)> = vec![(0, t0); workers];
    let mut dead: Vec<(u64, u64, bool)> = vec![];
    while kids.iter().any(|k| !k.done) {
        std::thread::sleep(Duration::from_millis(20));
        for w in 0..workers {
            if kids[w].done {
                continue;
            }
            let slot = &sh[8 + w * 4..12 + w * 4];
            let tick = slot[2].load(Ordering::SeqCst);
            if seen[w].0 != tick {
                seen[w] = (tick, Instant::now());
            }
            let hung = slot[0].load(Ordering::SeqCst) != 0 && seen[w].1.elapsed() > Duration::from_secs(150);
            let hung = hung || proc::rss(kids[w].pid) > proc::MAX_RSS;
            if hung {
                kids[w].kill();
            }
            match kids[w].poll(hung) {
                proc::End::Running => {}
                proc::End::Result(v) => {
                    let r: WorkerResult = serde_json::from_slice(&v).unwrap();
                    fails.extend(r.fails);
                    harness.extend(r.harness);
                    all_hashes.extend(r.hashes);
                    st.merge(r.st);
                }
                proc::End::Died(c) => {
                    let idx = slot[0].load(Ordering::SeqCst);
                    if idx == 0 || c == proc::HARNESS {
                        harness.push(format!("a worker process died ({})", proc::ending(c)));
                    } else {
                        dead.push((idx - 1, slot[1].load(Ordering::SeqCst), hung));
                    }
                    sh[1].store(1, Ordering::SeqCst);
                }
            }
        }
    }
    // A worker that died or hung: find the run it was doing and see it happen again.
    for (idx, sub, hung) in dead {
        let again = if hung { 60 } else { 120 };
        let (cx, p) = (&cx, prop.as_str());
        let mut k = proc::fork(proc::mem_limit(), 120, move || {
            let base = gen::gen(p, idx, seed, thorough);
            if sub == 0 {
                return serde_json::to_vec(&base).unwrap();
            }
            let o = exec::exec(cx, &base);
            let s = gen::derive(&base, &o, thorough).into_iter().nth(sub as usize - 1).expect("derived run");
            serde_json::to_vec(&s).unwrap()
        });
        let proc::End::Result(v) = k.wait() else {
            harness.push(format!("run {}.{} killed its worker and cannot be rebuilt", idx, sub));
            continue;
        };
        let s: Scn = serde_json::from_slice(&v).unwrap();
        let o = exec_guarded(cx, &s, again);
        match (o.viol, o.harness) {
            (Some(v), None) => fails.push((idx, sub as usize, s, v)),
            (_, h) => harness.push(format!("run {}.{} killed its worker, but not again {:?}", idx, sub, h)),
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    if let Some(p) = hashes {
        all_hashes.sort();
        let t: String = all_hashes.iter().map(|(i, k, h)| format!("{}.{} {:016x}\n", i, k, h)).collect();
        std::fs::write(p, t).unwrap();
    }
    fails.sort_by_key(|f| (f.0, f.1));

    let mut code = 0;
    let mut replay_path = None;
    if let Some((idx, sub, s, msg)) = fails.first() {
        let budget = if thorough { 90 } else { 45 };
        let crash = msg.contains("brings the whole program down");
        let (mut small, out, runs) = shrink::shrink(&cx, s, budget, crash);
        let mut m2 = out.viol.clone();
        if m2.is_none() {
            small = s.clone();
            m2 = Some(msg.clone());
        }
        let rd = format!("{}/replays", dir);
        let _ = std::fs::create_dir_all(&rd);
        let path = format!("{}/{}-{}-{}-{}.json", rd, prop, vseed, idx, sub);
        let j = serde_json::json!({
            "property": prop, "seed": vseed, "run": idx, "derived": sub,
            "violation": m2, "violation_before_minimising": msg, "trace_hash": out.hash,
            "fired": out.fired_list.iter().map(|f| serde_json::json!({"op": f.op, "kind": fault_name(f.kind), "arg": f.arg})).collect::<Vec<_>>(),
            "shrink_runs": runs, "scenario": small, "original": s,
        });
        std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).unwrap();
        println!("violated: {}", m2.unwrap());
        println!("VIOLATION property={} replay={}", prop, path);
        replay_path = Some(path);
        code = 1;
    } else if !harness.is_empty() {
        for h in harness.iter().take(5) {
            eprintln!("harness problem: {}", h);
        }
        // an isolated problem of the sandbox is no verdict; several are
        if harness.len() > 2 || st.evals < 20 {
            code = 2;
        }
    }
    for l in &known_lines {
        println!("{}", l);
    }
    let ev = serde_json::json!({
        "property": prop, "tier": tier, "seed": vseed, "level": "exploration",
        "coverage": {
            "evaluations": st.evals,
            "distinct_nontrivial": st.nontrivial.len(),
            "rule": rule(&prop),
            "samples": st.samples,
            "base_scenarios": st.bases,
            "fault_scenarios_derived": st.derived,
            "runs_per_hour": (st.evals as f64 / wall * 3600.0) as u64,
            "seeds_per_hour": (st.bases as f64 / wall * 3600.0) as u64,
            "simulated_seconds": st.clock_ns as f64 / 1e9,
            "simulated_host_and_device_operations": st.nops,
            "program_processes_run": st.procs,
            "library_executions": st.lib_runs,
            "suspension_points_taken": st.suspends,
            "runs_that_succeeded": st.success,
            "faults_injected": st.fired,
            "variants": st.variants,
            "distinct_traces": st.traces.len(),
            "distinct_traces_measure": "hash over the sequence of simulated operations (kind, file, offset, length, result, injected fault) of every process and device of the run, its exit status and standard output",
            "notes": st.notes,
            "real_components": components(&prop).0,
            "simulated_components": components(&prop).1,
            "known_findings": known_lines,
            "replay": replay_path,
            "workers": workers,
        },
        "assumptions": assumptions(&prop),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": fails.len().min(1),
    });
    let ed = format!("{}/evidence", dir);
    let _ = std::fs::create_dir_all(&ed);
    std::fs::write(format!("{}/{}.json", ed, prop), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    if a.has("--verbose") {
        println!("{}", serde_json::to_string_pretty(&ev["coverage"]).unwrap());
    }
    println!(
        "{} {} seed={} runs={} (base {}, derived {}) distinct={} ops={} faults={} wall={:.1}s",
        prop,
        tier,
        vseed,
        st.evals,
        st.bases,
        st.derived,
        st.traces.len(),
        st.nops,
        st.fired.values().sum::<u64>(),
        t0.elapsed().as_secs_f64()
    );
    std::process::exit(code);
}
#[derive(Default, serde::Serialize, serde::Deserialize)]
struct WorkerResult {
    st: Stats,
    fails: Vec<(u64, usize, Scn, String)>,
    harness: Vec<String>,
    hashes: Vec<(u64, usize, u64)>,
}
impl WorkerResult {
    fn note(&mut self, s: &Scn, o: &Outcome, idx: u64, sub: usize) -> bool {
        if let Some(h) = &o.harness {
            self.harness.push(format!("{} run {}.{} ({}): {}", s.prop, idx, sub, s.variant, h));
            return true;
        }
        if let Some(v) = &o.viol {
            self.fails.push((idx, sub, s.clone(), v.clone()));
            return true;
        }
        false
    }
}
/// Runs one scenario in a process of its own, so that library code may kill it.
pub fn exec_guarded(cx: &wcmd::Cx, s: &Scn, cpu: u64) -> Outcome {
    let mut k = proc::fork(proc::mem_limit(), cpu, || {
        let o = exec::exec(cx, s);
        let f: Vec<(u64, u8, u64)> = o.fired_list.iter().map(|f| (f.op, f.kind, f.arg)).collect();
        serde_json::to_vec(&(o.viol, o.harness, o.hash, f)).unwrap()
    });
    let mut o = Outcome::default();
    match k.wait() {
        proc::End::Result(v) => {
            let (a, b, c, f): (Option<String>, Option<String>, u64, Vec<(u64, u8, u64)>) = serde_json::from_slice(&v).unwrap();
            o.viol = a;
            o.harness = b;
            o.hash = c;
            o.fired_list = f.into_iter().map(|(op, kind, arg)| Fault { op, kind, arg }).collect();
        }
        proc::End::Died(proc::HARNESS) => o.harness = Some("a program under test cannot be started".into()),
        proc::End::Died(c) => o.fail(format!("library code brings the whole program down: {}", proc::ending(c))),
        proc::End::Running => {}
    }
    o
}
fn replay(a: &Args, env: &run::Env) {
    let t = std::fs::read_to_string(&a.v[2]).expect("cannot read the replay file");
    let j: serde_json::Value = serde_json::from_str(&t).unwrap();
    let s: Scn = serde_json::from_value(j.get("scenario").cloned().unwrap_or(j.clone())).unwrap();
    let cx = wcmd::Cx { env, thorough: false };
    proc::damaged_images(&s.prop);
    let g = exec_guarded(&cx, &s, 120);
    let o = if g.viol.as_deref().is_some_and(|v| v.contains("brings the whole program down")) || !a.has("--ops") { g } else { exec::exec(&cx, &s) };
    if a.has("--ops") {
        for (i, r) in o.ops.iter().enumerate() {
            println!(
                "{:5} {:10} {} off={} len={} ret={}{}",
                i,
                OP_NAMES[r.kind as usize],
                String::from_utf8_lossy(o.paths.get(r.path as usize).map(|p| &p[..]).unwrap_or(b"")),
                r.off,
                r.len,
                r.ret,
                if r.fault != 0 { format!("   <- {}", fault_name(r.fault)) } else { String::new() }
            );
        }
    }
    if let Some(h) = o.harness {
        eprintln!("harness problem: {}", h);
        std::process::exit(2);
    }
    match o.viol {
        Some(v) => {
            println!("violated: {}", v);
            let same = j["violation"].as_str() == Some(v.as_str()) && j["trace_hash"].as_u64() == Some(o.hash);
            println!("{} the recorded run", if same { "identical to" } else { "differs from" });
            println!("VIOLATION property={} replay={}", s.prop, a.v[2]);
            std::process::exit(1);
        }
        None => println!("no violation (trace hash {})", o.hash),
    }
}
fn one(a: &Args, env: &run::Env) {
    let prop = a.v[2].clone();
    let idx: u64 = a.v[3].parse().unwrap();
    let vseed: u64 = a.get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let seed = mix2(vseed, fnv(3, prop.as_bytes()));
    let cx = wcmd::Cx { env, thorough: false };
    let base = gen::gen(&prop, idx, seed, false);
    println!("{}", serde_json::to_string_pretty(&base).unwrap());
    let o = exec::exec(&cx, &base);
    println!("viol={:?} harness={:?} hash={} nops={} fired={:?}", o.viol, o.harness, o.hash, o.nops, o.fired);
    if gen::has_derived(&prop) {
        for (k, s) in gen::derive(&base, &o, false).into_iter().enumerate() {
            let o = exec::exec(&cx, &s);
            println!("derived {}: faults={:?} cap={:?} mut={:?} viol={:?} harness={:?} fired={:?}", k + 1, s.faults, s.capacity, s.mutations, o.viol, o.harness, o.fired);
        }
    }
}
fn rule(prop: &str) -> String {
    let base = "one seed draws a tree or image, a command or library call sequence, the host's listing order and the rates of benign faults (short and interrupted transfers, missing in-kernel copy, failing dup and canonicalize, unknown entry types, task suspensions)";
    let d = match prop {
        "C05" => "; hard faults (errors, torn writes, full disk, sources changing underneath) are placed by the operation log of the fault-free run. Non-trivial: at least one hard fault, or the disk limit, took effect",
        "C06" => "; kills and, for the library, failures and cancellations are placed by the operation log of the fault-free run. Non-trivial: the kill or fault took effect",
        "C07" => "; errors and kills are placed by the operation log of the fault-free run. Non-trivial: the command ran",
        "C16" => "; failing image reads and seeks are placed by the operation log of the fault-free run. Non-trivial: the mount served requests",
        "C17" => "; device errors, torn transfers and cancellations are placed by the operation log of the fault-free run. Non-trivial: faults were planned, or readers interleaved",
        "C19" => "; library failures and cancellations are placed by the operation log of the fault-free run. Non-trivial: non-empty tree, or the fault took effect",
        "C20" => "; start-up errors and daemon crashes are placed by the operation log of the fault-free run. Non-trivial: the program ran",
        "C21" => "; hard faults are placed by the operation log of the fault-free run; some images have hostile names, some outputs are their own source. Non-trivial: the tree is not empty",
        "C22" => "; the order of listings, the delays of promises and, by the operation log of the fault-free run, failing operations, a full disk, sources changing underneath and a closed tab. Non-trivial: the tree is not empty",
        "C25" => "; one seed draws what a user does on the pages (presses, answers and cancelled dialogs, waits); delays of promises, listing orders and, by the operation log of the fault-free run, failing operations, a full disk and a closed tab. Non-trivial: an operation ended",
        "C24" => "; one seed draws a command line (and a specification) from pieces that make little sense, over a host with every kind of file; errors are placed by the operation log. Non-trivial: the program ran",
        "C23" => "; one seed draws a device, its first contents and a sequence of reads, writes, length queries and flushes; errors, torn writes and a full disk are placed by the operation log of the fault-free run. Non-trivial: more than one operation",
        "C09" => "; the image is damaged at fields of its descriptor and directory entries, or truncated. Non-trivial: always",
        "C10" => "; directory entries get hostile names. Non-trivial: always",
        _ => ". Non-trivial: the tree or selection is not empty",
    };
    format!("{}{}; distinct by operation trace and seed", base, d)
}
/// What of a check's runs is real code, and what is simulated.
fn components(prop: &str) -> (&'static [&'static str], &'static [&'static str]) {
    match prop {
        "C21" => (&["xdvdfs-core", "xdvdfs-desktop pack, unpack, compress", "Rust std I/O", "ciso"], &["host filesystem, clock and randomness (LD_PRELOAD)", "tauri", "executor"]),
        "C22" => (&["xdvdfs-core", "xdvdfs-web ops/browser.rs, fs", "ciso"], &["browser (File System Access API, promises, streams)", "wasm-bindgen, js-sys, web-sys", "event loop"]),
        "C23" => (&["xdvdfs-core block devices", "Rust std I/O"], &["host filesystem (LD_PRELOAD)", "the program around the devices"]),
        "C25" => (
            &["xdvdfs-core", "xdvdfs-web pages, pickers, ops/browser.rs, ops/tauri.rs, fs", "xdvdfs-desktop pack, unpack, compress", "ciso"],
            &["user", "browser or tauri and the host's files", "yew, yewprint, wasm-bindgen", "event loop"],
        ),
        _ => (
            &["xdvdfs-core", "xdvdfs-cli (async and sync builds)", "xdvdfs-fsd and fuser session loop", "tokio runtime", "Rust std I/O", "ciso"],
            &["host filesystem, descriptors, clock and randomness (LD_PRELOAD)", "kernel side of FUSE", "block devices, source filesystems and executor of library runs"],
        ),
    }
}
fn assumptions(prop: &str) -> Vec<String> {
    let mut v = vec![
        "the simulated host filesystem (LD_PRELOAD layer) behaves like a POSIX filesystem for the calls the programs make".to_string(),
        "the reference reader/writer of XDVDFS images and CSO files in xsim is correct".to_string(),
        "errors reported by close(2) and loss of unsynced data at power failure are not simulated".to_string(),
    ];
    if matches!(prop, "C22" | "C25") {
        v[0] = "the simulated browser follows the File System Access API (jsworld): snapshots of files, writes that take effect on close, errored streams".into();
        v.push("the web app's code behaves on 64-bit like on wasm32".into());
    }
    if matches!(prop, "C14" | "C15" | "C16" | "C20") {
        v.push("requests arrive as the kernel sends them to a FUSE 7.8 server".into());
    }
    v
}
