//! C24: command lines, map rules and specifications that make little sense.
use crate::gen::pickv;
use crate::image::*;
use crate::run::*;
use crate::scn::*;
use crate::simfmt::*;
use crate::tree::*;
use crate::wcmd::*;

const PATHS: &[&str] = &[
    "", ".", "..", "/", "//", "/w", "/w/", "src", "src/", "./src", "src/.", "src/..", "src/../src", "../w/src", "game.iso", "./game.iso", "game.iso/",
    "game.iso/x", "game.1.cso", "game.cso", "game.iso/..", "none", "none/", "none/x", "none/../src", "o", "o/", "o/..", "o/x.iso", "o/new", "pipe",
    "dangle", "dangle/x", "loop", "loop/x", "empty", "text.txt", "dir.iso", ".iso", ".hidden", "x.", "a.b.iso", "a..iso", "nul\u{f780}name", "\u{f7ff}",
    "lnk", "lnk/..", "spec.toml", "src/xdvdfs.toml", "../../..", "/..", "é", "日本", " ", "a b", "*", "{0}", "out.iso", "out.cso", "out", "out.1.cso",
    "big.3.cso", "x.1", ".cso", ".1.cso", "1.cso", "...", "o/...", "C:\\x", "o\\x", "-", "~",
];
const INNER: &[&str] = &["", "/", "//", ".", "..", "/..", "/../x", "a/b", "a//b", "/a/", "./a", "\\", "a\\b", "日本", "é", "\u{f7ff}", " ", "*", "-", "%s", "default.xbe", "//////"];
const HOSTS: &[&str] = &[
    "", "!", "!!", "!!a", "!**", "**", "***", "*", "**/*", "*/**", "?", "[", "[]", "[a-", "[z-a]", "[!a]", "{", "}", "{a,b}", "{a,", "{}", "{,}", "{{a,b},c}", "<a:3>",
    "<a", "<:0>", "<*:1,>", "<<a:2>:99999>", "(?i)a", "(?i)**", "(?", "/", "//", "/**", "./a", "../**", "..", ".", "a/../b", "a//b", "\\", "\\*", "a\\", "**/a/**", "a**b",
    "日*", " ", "$", "a,b", "src/**",
];
const IMAGES: &[&str] = &[
    "", "/", "//", "{0}", "/{0}", "{1}", "/{1}/{0}", "{2}", "{10}", "{", "}", "{}", "{a}", "{-1}", "{ 1}", "{1", "1}", "}{", "{{0}}", "{01}", "{+1}", "{1.0}", "{١}",
    "{4294967296}", "{18446744073709551616}", "{99999999999999999999999999}", ".", "..", "/..", "../x", "a/../b", "a/./b", "./{0}", "a//{0}", "/a/", "{0}{0}", ":", "a:b", "日本", "\u{3042}",
    "\\", "x\\y", " ",
];
fn path(r: &mut Rng) -> String {
    match r.below(40) {
        0 => "x".repeat(r.range(250, 300) as usize),
        1 => format!("{}/x", "d/".repeat(r.range(50, 3000) as usize)),
        2 => format!("{}.iso", "../".repeat(r.range(1, 200) as usize)),
        3..=12 => r.pick(&["src", "game.iso"]).to_string(),
        13..=17 => r.pick(&["o/x.iso", "o", "out.iso", "o/new"]).to_string(),
        _ => r.pick(PATHS).to_string(),
    }
}
fn inner(r: &mut Rng, s: &Scn) -> String {
    match r.below(10) {
        0 => "/x".repeat(r.range(1, 3000) as usize),
        1 => "y".repeat(r.range(200, 400) as usize),
        2..=4 if !s.tree.is_empty() => {
            let p = r.pick(&s.tree).path.clone();
            match r.below(4) {
                0 => format!("{}/", p),
                1 => format!("{}/{}", p, r.pick(INNER)),
                2 => format!("/{}", p),
                _ => p,
            }
        }
        _ => r.pick(INNER).to_string(),
    }
}
fn rule(r: &mut Rng) -> (String, String) {
    let h = match r.below(8) {
        0 => format!("{}{}", r.pick(HOSTS), r.pick(HOSTS)),
        1 | 2 => "**".into(),
        3 => "**/{*,?}".into(),
        _ => r.pick(HOSTS).to_string(),
    };
    let i = match r.below(6) {
        0 => format!("{}{}", r.pick(IMAGES), r.pick(IMAGES)),
        1 => format!("/{{0}}/{}", r.pick(IMAGES)),
        _ => r.pick(IMAGES).to_string(),
    };
    (h, i)
}
fn spec(r: &mut Rng) -> String {
    let q = |s: &str| format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""));
    let mut t = String::new();
    if r.chance(1, 2) {
        t.push_str("[metadata]\n");
        match r.below(6) {
            0 => t.push_str("output = 5\n"),
            1 => t.push_str("output = []\nmore = 1\n"),
            2 => {}
            _ => t.push_str(&format!("output = {}\n", q(&path(r)))),
        }
    }
    match r.below(10) {
        0 => {}
        1 => t.push_str("map_rules = 3\n"),
        2 => t.push_str("[[map_rules]]\n\"a\" = \"b\"\n"),
        _ => {
            t.push_str("[map_rules]\n");
            for _ in 0..r.below(5) {
                let (h, i) = rule(r);
                match r.below(12) {
                    0 => t.push_str(&format!("{} = 7\n", q(&h))),
                    1 => t.push_str(&format!("{} = {{ a = {} }}\n", q(&h), q(&i))),
                    2 => t.push_str(&format!("{} = [\"x\"]\n", q(&h))),
                    _ => t.push_str(&format!("{} = {}\n", q(&h), q(&i))),
                }
            }
        }
    }
    if r.chance(1, 4) && !t.is_empty() {
        let c: Vec<char> = t.chars().collect();
        let at = r.below(c.len() as u64) as usize;
        t = match r.below(4) {
            0 => c[..at].iter().collect(),
            1 => c[at..].iter().collect(),
            2 => {
                let mut c = c;
                c[at] = *r.pick(&['"', '[', ']', '=', '\n', '\u{0}', '{', '.', '\u{f7ff}', 'é', '#']);
                c.iter().collect()
            }
            _ => format!("{}{}", t, t),
        };
    }
    t
}

pub fn gen_c24(r: &mut Rng, s: &mut Scn) {
    let sub = pickv(
        r,
        &[
            ("pack", 6), ("unpack", 4), ("build-image", 12), ("image-spec", 4), ("compress", 5), ("ls", 2), ("tree", 1), ("md5", 2), ("checksum", 2), ("info", 3),
            ("copy-out", 4), ("extract-xiso", 8), ("junk", 1), ("xdvdfsd", 3),
        ],
    );
    s.variant = sub.into();
    let mut a: Vec<String> = vec!["xdvdfs".into(), sub.into()];
    match sub {
        "pack" | "compress" => {
            a.push(path(r));
            if r.chance(2, 3) {
                a.push(path(r));
            }
        }
        "unpack" => {
            a.push(if r.chance(1, 2) { "game.iso".into() } else { path(r) });
            if r.chance(2, 3) {
                a.push(path(r));
            }
        }
        "build-image" => {
            if r.chance(1, 3) {
                a.extend(["-f".into(), if r.chance(2, 3) { "spec.toml".into() } else { path(r) }]);
            } else {
                for _ in 0..r.below(4) {
                    let (h, i) = rule(r);
                    a.push("-m".into());
                    a.push(if r.chance(1, 8) { h } else { format!("{}:{}", h, i) });
                }
                if r.chance(1, 4) {
                    a.extend(["-O".into(), path(r)]);
                }
            }
            if r.chance(1, 4) {
                a.push("-D".into());
            }
            if r.chance(5, 6) {
                a.push(if r.chance(1, 2) { "src".into() } else { path(r) });
                if r.chance(1, 2) {
                    a.push(path(r));
                }
            }
        }
        "image-spec" => {
            a.push("from".into());
            for _ in 0..r.below(4) {
                let (h, i) = rule(r);
                a.push("-m".into());
                a.push(if r.chance(1, 8) { h } else { format!("{}:{}", h, i) });
            }
            if r.chance(1, 3) {
                a.extend(["-O".into(), path(r)]);
            }
            if r.chance(1, 3) {
                a.push(path(r));
            }
        }
        "ls" | "tree" | "md5" | "info" | "copy-out" | "checksum" => {
            a.push(if r.chance(1, 2) { "game.iso".into() } else { path(r) });
            if sub == "checksum" {
                for _ in 0..r.below(3) {
                    a.push(path(r));
                }
            } else if sub != "tree" && r.chance(3, 4) {
                a.push(inner(r, s));
            }
            if sub == "copy-out" {
                a.push(path(r));
            }
        }
        "extract-xiso" => {
            if r.chance(1, 2) {
                a.remove(0);
            }
            if r.chance(1, 3) {
                a.extend(["-d".into(), path(r)]);
            }
            if r.chance(1, 6) {
                a.push("-D".into());
            }
            match r.below(6) {
                0 | 1 => a.push("-c".into()),
                2 => a.push("-l".into()),
                3 => a.push("-x".into()),
                4 => a.push("-r".into()),
                _ => {}
            }
            for _ in 0..r.below(4) {
                a.push(if r.chance(1, 8) { "-c".into() } else { path(r) });
            }
        }
        "xdvdfsd" => {
            a = vec!["xdvdfsd".into()];
            for _ in 0..r.below(4) {
                a.push(path(r));
            }
            for _ in 0..r.below(3) {
                a.push("-o".into());
                a.push(r.pick(&["", ",", "ro", "rw", "rw,ro", "fork", "=", "a=b,,c", "fsname=", "subtype=", "uid=x", "umask=999", "allow_other", "\u{f7ff}", "exec,noexec"]).to_string());
            }
        }
        _ => {
            a = vec![];
            for _ in 0..r.below(5) {
                a.push(if r.chance(1, 2) { path(r) } else { r.pick(&["xdvdfs", "pack", "-h", "--help", "-V", "help", "--", "--version", "extract-xiso", "-m", "-x"]).to_string() });
            }
        }
    }
    s.set("plain", 1);
    if r.chance(1, 12) && a.len() > 2 {
        s.set("plain", 0);
        let i = r.range(1, a.len() as u64) as usize;
        a.insert(i, r.pick(&["--", "-", "-x", "--foo", "-h", "", "-O", "-m"]).to_string());
    }
    if r.chance(1, 20) && a.len() > 2 {
        s.set("plain", 0);
        a.pop();
    }
    s.list = a;
    let t = spec(r);
    s.sets("spec", &t);
    let x = r.below(4);
    s.set("cwd", x);
}

pub fn exec_c24(cx: &Cx, s: &Scn) -> Outcome {
    let mut o = Outcome::default();
    if s.list.is_empty() {
        return o;
    }
    let mut cfg = s.config();
    let img = build_image(&s.tree, s.img.as_ref().unwrap_or(&ImgOpts::default())).img;
    let spec = FileData::from_bytes(&os_bytes(&s.str("spec").to_string()));
    let mut nodes = vec![dir_node("/w"), dir_node("/w/o")];
    nodes.extend(host_nodes("/w/src", &s.tree));
    if !nodes.iter().any(|n| n.path.eq_ignore_ascii_case(b"/w/src/xdvdfs.toml")) {
        nodes.push(file_node("/w/src/xdvdfs.toml", spec.clone()));
    }
    nodes.push(file_node("/w/spec.toml", spec));
    nodes.push(file_node("/w/game.iso", img.clone()));
    for x in [".iso", "a.b.iso", "x.", "a..iso"] {
        nodes.push(file_node(&format!("/w/{}", x), img.clone()));
    }
    nodes.push(file_node("/w/empty", FileData::default()));
    nodes.push(file_node("/w/text.txt", FileData::from_bytes(b"hello")));
    nodes.push(file_node("/w/game.cso", FileData::from_bytes(b"CISO\x18\0\0\0")));
    nodes.push(dir_node("/w/dir.iso"));
    nodes.push(FsNode { kind: NodeKind::Other, ..dir_node("/w/pipe") });
    nodes.push(link_node("/w/dangle", "nowhere"));
    nodes.push(link_node("/w/loop", "loop"));
    nodes.push(link_node("/w/lnk", "src"));
    cfg.cwd = ["/w", "/w", "/w/src", "/"][s.num("cwd") as usize & 3].into();
    let prog = if s.list[0] == "xdvdfsd" { Bin::Fsd } else { bin(s) };
    let argv: Vec<Vec<u8>> = s.list.iter().map(|x| os_bytes(x)).collect();
    let what = s.list.join(" ");
    let Some(p) = proc(cx, &mut o, &cfg, prog, &argv, &nodes, true) else { return o };
    o.nontrivial = true;
    if let Some(b) = bad_end(&p) {
        o.fail(format!("`{}` {}", what, b));
        return o;
    }
    let Some(out) = &p.out else { return o };
    let quiet = s.list.iter().any(|x| x.starts_with('-') && (x.contains('q') || x.contains('Q')));
    if p.code != 0 && !quiet && p.stderr.iter().all(|c| c.is_ascii_whitespace()) && p.stdout.is_empty() {
        o.fail(format!("`{}` fails (exit {}) without any message", what, p.code));
        return o;
    }
    let reading = matches!(s.variant.as_str(), "ls" | "tree" | "md5" | "checksum" | "info")
        || s.variant == "build-image" && s.list.iter().any(|x| x == "-D")
        || s.variant == "extract-xiso" && s.list.iter().any(|x| x == "-l") && !s.list.iter().any(|x| x.starts_with("-c") || x == "-x" || x == "-r");
    if reading && !s.list.iter().any(|x| x == "--") && s.list.get(1).is_some_and(|x| *x == s.variant) {
        if let Some(e) = unchanged(&nodes, out, &[""]) {
            o.fail(format!("`{}` only reads, but: {}", what, e));
            return o;
        }
    }
    // rules that cannot be understood
    if s.num("plain") == 1 && s.variant == "build-image" {
        let rules: Vec<&String> = s.list.windows(2).filter(|w| w[0] == "-m").map(|w| &w[1]).collect();
        let bad = |x: &&&String| {
            let (h, i) = x.split_once(':').map_or((x.as_str(), None), |(h, i)| (h, Some(i)));
            wax::Glob::new(h.trim_start_matches('!')).is_err() || i.is_none() && !h.starts_with('!')
        };
        if let Some(x) = rules.iter().find(bad) {
            if p.code == 0 {
                o.fail(format!("`{}` reports success although it cannot understand the rule {:?}", what, x));
                return o;
            }
            if let Some(e) = unchanged(&nodes, out, &[""]) {
                o.fail(format!("`{}` refuses the rule {:?}, but: {}", what, x, e));
                return o;
            }
        }
    }
    if out.status == ST_EXIT {
        for n in &out.nodes {
            let NodeKind::File(f) = &n.kind else { continue };
            if (n.dirty || n.ino > nodes.len() as u64) && recognised(f).is_some() {
                if let Err(e) = parse(f, false) {
                    o.fail(format!("`{}` ends (exit {}) and leaves {} behind, which is recognised as a volume but damaged: {}", what, p.code, txt(&n.path), e));
                    return o;
                }
            }
        }
    }
    o
}
