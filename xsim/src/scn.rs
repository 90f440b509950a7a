//! A scenario: everything that determines one simulated run. Serialised as the replay file.
use crate::image::ImgOpts;
use crate::simfmt::*;
use crate::tree::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Serialize, Deserialize, Default, Debug)]
pub struct Scn {
    pub prop: String,
    pub variant: String,
    pub seed: u64,
    #[serde(default)]
    pub tree: Tree,
    #[serde(default)]
    pub img: Option<ImgOpts>,
    #[serde(default)]
    pub sync: bool,
    #[serde(default)]
    pub n: BTreeMap<String, u64>,
    #[serde(default)]
    pub s: BTreeMap<String, String>,
    /// rules, paths, requests: one item per line
    #[serde(default)]
    pub list: Vec<String>,
    #[serde(default)]
    pub rates: [u16; NRATES],
    #[serde(default)]
    pub shuffle: u8,
    #[serde(default)]
    pub dt_unknown: bool,
    #[serde(default)]
    pub capacity: Option<u64>,
    /// chance per 1024 that a library device operation suspends
    #[serde(default)]
    pub pend: u64,
    #[serde(default)]
    pub faults: Vec<(u64, u8, u64)>,
    /// (kind 0 truncate / 1 remove / 2 append, path, length)
    #[serde(default)]
    pub mutations: Vec<(u8, String, u64)>,
}

impl Scn {
    pub fn num(&self, k: &str) -> u64 {
        self.n.get(k).copied().unwrap_or(0)
    }
    pub fn str(&self, k: &str) -> &str {
        self.s.get(k).map(|s| s.as_str()).unwrap_or("")
    }
    pub fn set(&mut self, k: &str, v: u64) -> &mut Self {
        self.n.insert(k.into(), v);
        self
    }
    pub fn sets(&mut self, k: &str, v: &str) -> &mut Self {
        self.s.insert(k.into(), v.into());
        self
    }
    pub fn fault_list(&self) -> Vec<Fault> {
        self.faults.iter().map(|f| Fault { op: f.0, kind: f.1, arg: f.2 }).collect()
    }
    pub fn config(&self) -> Config {
        Config {
            seed: self.seed,
            rates: self.rates,
            faults: self.fault_list(),
            mutations: self
                .mutations
                .iter()
                .map(|(k, p, n)| {
                    let p = os_bytes(p);
                    match k {
                        0 => Mutation::Truncate(p, *n),
                        1 => Mutation::Remove(p),
                        _ => Mutation::Append(p, vec![0xA5; *n as usize]),
                    }
                })
                .collect(),
            shuffle: self.shuffle,
            dt_unknown: self.dt_unknown,
            max_ops: 3_000_000,
            capacity: self.capacity.unwrap_or(u64::MAX),
            fuse_fd: -1,
            mount_wait_ms: 0,
            cwd: b"/w".to_vec(),
            log_ops: true,
        }
    }
}

/// What one run showed.
#[derive(Default)]
pub struct Outcome {
    pub viol: Option<String>,
    pub harness: Option<String>,
    pub hash: u64,
    pub nops: u64,
    pub clock_ns: u64,
    pub procs: u64,
    pub lib_runs: u64,
    pub suspends: u64,
    pub fired: BTreeMap<String, u64>,
    pub fired_list: Vec<Fault>,
    /// operation log of the main run, for choosing fault positions
    pub ops: Vec<OpRec>,
    pub paths: Vec<Vec<u8>>,
    pub lib_kinds: Vec<u8>,
    pub lib_lens: Vec<u64>,
    /// 1: the property's trigger was really exercised
    pub nontrivial: bool,
    pub exit_ok: bool,
    pub note: Option<String>,
}
impl Outcome {
    pub fn fail(&mut self, m: impl Into<String>) {
        if self.viol.is_none() {
            self.viol = Some(m.into());
        }
    }
    pub fn failed(&self) -> bool {
        self.viol.is_some() || self.harness.is_some()
    }
}

pub fn fault_name(kind: u8) -> &'static str {
    match kind {
        F_SHORT => "short_transfer",
        F_EINTR => "interrupted",
        F_NOCOPY => "in_kernel_copy_unsupported",
        F_NODUP => "dup_failed",
        F_NOREALPATH => "canonicalize_failed",
        F_ERRNO => "io_error",
        F_CRASH => "crash_or_cancel",
        F_MUTATE => "source_changed_underneath",
        F_ERRNO_STICKY => "persistent_io_error",
        F_PARTIAL_ERR => "torn_transfer",
        40 => "suspension",
        41 => "disk_full",
        42 => "reordered_listing",
        43 => "unknown_entry_types",
        _ => "other",
    }
}
