//! Known findings: defects of the program under test that are recorded, not repaired. Each is an
//! explicit scenario that every check of its property replays; known_findings.txt says which are
//! expected to fail.
use crate::exec::exec;
use crate::tree::*;
use crate::scn::*;
use crate::wcmd::Cx;

fn text_file(path: &str, len: u64) -> TEnt {
    TEnt { path: path.into(), dir: false, len, seed: 1, style: ST_TEXT, special: 0, link: String::new() }
}
fn scenarios() -> Vec<(&'static str, Scn)> {
    let mut v = vec![];
    // The index entry that ends the last sector is rounded down, so that sector cannot be read back.
    let mut s = Scn { prop: "C12".into(), variant: "compress-dir".into(), seed: 7, ..Default::default() };
    s.tree = vec![text_file("data.bin", 30 * 2048)];
    s.list = vec!["md5all".into()];
    s.set("strict", 1);
    v.push(("cso-last-sector", s));
    // Names, types and contents are hashed without delimiters.
    let mut s = Scn { prop: "C11".into(), variant: "cmd".into(), seed: 7, ..Default::default() };
    s.tree = vec![text_file("a", 0)];
    s.list = vec!["flip|a".into()];
    s.set("strict", 1);
    v.push(("checksum-empty-file-or-directory", s));
    v
}

/// (lines to print, scenarios that fail without being listed)
pub fn known(cx: &Cx, prop: &str, dir: &str) -> (Vec<String>, Vec<(Scn, String)>) {
    let listed = std::fs::read_to_string(format!("{}/known_findings.txt", dir)).unwrap_or_default();
    let (mut lines, mut bad) = (vec![], vec![]);
    for (name, s) in scenarios() {
        if s.prop != prop {
            continue;
        }
        let o = exec(cx, &s);
        let Some(v) = o.viol else { continue };
        let key = format!("known: property={} {} ", prop, name);
        if listed.lines().any(|l| l.starts_with(&key)) {
            lines.push(format!("KNOWN-FINDING: property={} {}: {}", prop, name, v));
        } else {
            bad.push((s, v));
        }
    }
    (lines, bad)
}
