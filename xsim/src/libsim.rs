//! Library-level runs: the real `xdvdfs` crate over simulated devices and source
//! filesystems, on a seeded executor.
use crate::image::*;
use crate::rcmd::*;
use crate::scn::*;
use crate::simdisk::*;
use crate::simfmt::*;
use crate::tree::*;
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use xdvdfs::blockdev::OffsetWrapper;
use xdvdfs::layout::{DirectoryEntryNode, DirectoryEntryTable, VolumeDescriptor};
use xdvdfs::util::Error as XErr;
use xdvdfs::write::fs::{
    CisoSectorInput, FilesystemCopier, FilesystemHierarchy, RemapOverlayConfig, RemapOverlayFilesystem, SectorLinearBlockDevice,
    SectorLinearBlockFilesystem, XDVDFSFilesystem,
};
use xdvdfs::write::img::{create_xdvdfs_image, ProgressInfo};

type Dev = OffsetWrapper<SimDisk>;

// ------------------------------------------------------------------ panics
thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}
pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if QUIET.with(|q| *q.borrow()) {
            LAST_PANIC.with(|l| *l.borrow_mut() = i.to_string().replace('\n', " "));
        } else {
            old(i)
        }
    }));
}
/// Runs code under test; a panic becomes an error text.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| *q.borrow_mut() = true);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = false);
    r.map_err(|_| LAST_PANIC.with(|l| l.borrow().clone()))
}

fn finish(o: &mut Outcome, w: &Wd) {
    let s = match w.lock() {
        Ok(s) => s,
        Err(e) => e.into_inner(),
    };
    o.lib_runs += 1;
    o.nops += s.ops;
    o.suspends += s.suspends;
    o.hash = mix2(o.hash, s.hash);
    o.lib_kinds = s.kinds.clone();
    o.lib_lens = s.lens.clone();
    for f in &s.fired {
        *o.fired.entry(fault_name(f.kind).into()).or_default() += 1;
    }
    if s.suspends > 0 {
        *o.fired.entry("suspension".into()).or_default() += s.suspends;
    }
    o.fired_list = s.fired.clone();
}

// ------------------------------------------------------------------ writing
pub enum AnyFs {
    Fs(SimFs),
    Remap(RemapOverlayFilesystem<SimFs>),
    Img(XDVDFSFilesystem<Dev, SimDisk>),
    LinFs(SimFs),
    LinImg(XDVDFSFilesystem<Dev, [u8]>),
}
pub type Events = Arc<Mutex<Vec<ProgressInfo>>>;

pub fn is_img_variant(v: &str) -> bool {
    v == "lib-img" || v == "lib-linear-img"
}

async fn make_fs(s: &Scn, w: &Wd, m: &Arc<Model>, img: Option<&FileData>) -> Result<AnyFs, String> {
    let mut fs = SimFs::new(w, m, s.shuffle, s.seed);
    if let Some(p) = s.s.get("shrink") {
        fs.shrunk.insert(p.clone(), s.num("shrink_to"));
    }
    Ok(match s.variant.as_str() {
        "lib-remap" => {
            let rules = if s.list.is_empty() { vec![("**".to_string(), "/{0}".to_string())] } else { crate::build::rules_of(&s.list) };
            AnyFs::Remap(RemapOverlayFilesystem::new(fs, RemapOverlayConfig { map_rules: rules }).await.map_err(|e| format!("{}", e))?)
        }
        "lib-img" => {
            let d = OffsetWrapper::new(SimDisk::new(w, img.unwrap().clone())).await.map_err(|e| format!("{:?}", e))?;
            AnyFs::Img(XDVDFSFilesystem::new(d).await.ok_or("the image is not recognised")?)
        }
        "lib-linear" => AnyFs::LinFs(fs),
        "lib-linear-img" => {
            let d = OffsetWrapper::new(SimDisk::new(w, img.unwrap().clone())).await.map_err(|e| format!("{:?}", e))?;
            AnyFs::LinImg(XDVDFSFilesystem::new(d).await.ok_or("the image is not recognised")?)
        }
        _ => AnyFs::Fs(fs),
    })
}

async fn linear<F>(fs: &mut F, dest: &mut SimDisk, ev: &Events) -> Result<(), String>
where
    F: FilesystemHierarchy + FilesystemCopier<[u8]>,
    <F as FilesystemHierarchy>::Error: std::fmt::Debug,
    <F as FilesystemCopier<[u8]>>::Error: std::fmt::Debug,
{
    use ciso::write::SectorReader;
    let mut dev = SectorLinearBlockDevice::default();
    let mut lf = SectorLinearBlockFilesystem::new(fs);
    let ev = ev.clone();
    create_xdvdfs_image(&mut lf, &mut dev, |p| ev.lock().unwrap().push(p)).await.map_err(|e| format!("{:?}", e))?;
    let mut input = CisoSectorInput::new(dev, lf);
    let n = input.size().await.map_err(|e| format!("{:?}", e))?;
    let mut d = FileData::default();
    for i in 0..n.div_ceil(2048) {
        let b = input.read_sector(i as usize, 2048).await.map_err(|e| format!("{:?}", e))?;
        if b.len() != 2048 {
            return Ok(());
        }
        d.write_at(i * 2048, &b);
    }
    d.len = n;
    *dest.data.lock().unwrap() = d;
    Ok(())
}

pub async fn write_once(fs: &mut AnyFs, dest: &mut SimDisk, ev: &Events) -> Result<(), String> {
    let e2 = ev.clone();
    let cb = move |p| e2.lock().unwrap().push(p);
    match fs {
        AnyFs::Fs(f) => create_xdvdfs_image(f, dest, cb).await.map_err(|e| format!("{:?}", e)),
        AnyFs::Remap(f) => create_xdvdfs_image(f, dest, cb).await.map_err(|e| format!("{:?}", e)),
        AnyFs::Img(f) => create_xdvdfs_image(f, dest, cb).await.map_err(|e| format!("{:?}", e)),
        AnyFs::LinFs(f) => linear(f, dest, ev).await,
        AnyFs::LinImg(f) => linear(f, dest, ev).await,
    }
}

pub enum WEnd {
    Ok,
    Err(String),
    Cancelled,
    Hung,
    Panic(String),
}
pub struct WRun {
    pub end: WEnd,
    pub dest: FileData,
    pub events: Vec<ProgressInfo>,
    pub w: Wd,
}
pub fn lib_model(s: &Scn) -> Arc<Model> {
    let mut m = model(&s.tree);
    // "huge": replicate a sparse file many times
    if s.num("copies") > 0 {
        let f = m.get("big").cloned();
        if let Some(f) = f {
            for i in 0..s.num("copies") {
                m.insert(format!("big{:06}", i), f.clone());
            }
        }
    }
    // wide directories of plain names
    if s.num("wide") > 0 {
        let d = s.str("wide_dir").to_string();
        if !d.is_empty() {
            m.insert(d.clone(), None);
        }
        let e = Some(Arc::new(FileData::from_bytes(b"x")));
        let l = s.num("wide_len") as usize;
        for i in 0..s.num("wide") {
            let mut n = format!("{:06}", i);
            while n.len() < l {
                n.push('n');
            }
            m.insert(if d.is_empty() { n } else { format!("{}/{}", d, n) }, e.clone());
        }
    }
    Arc::new(m)
}
pub fn lib_write(s: &Scn) -> WRun {
    let m = lib_model(s);
    let w = world(mix2(s.seed, 77), s.pend, &s.fault_list(), 3_000_000);
    let img = if is_img_variant(&s.variant) { Some(build_image(&s.tree, s.img.as_ref().unwrap_or(&ImgOpts::default())).img) } else { None };
    lib_write_from(s, &w, &m, img.as_ref())
}
pub fn lib_write_from(s: &Scn, w: &Wd, m: &Arc<Model>, img: Option<&FileData>) -> WRun {
    let mut dest = SimDisk::new(w, FileData::default());
    let ev: Events = Default::default();
    let keep = dest.clone();
    let r = guard(|| {
        run1(w, async {
            let mut fs = make_fs(s, w, m, img).await?;
            write_once(&mut fs, &mut dest, &ev).await
        })
    });
    let end = match r {
        Err(p) => WEnd::Panic(p),
        Ok(End::Done(Ok(()))) => WEnd::Ok,
        Ok(End::Done(Err(e))) => WEnd::Err(e),
        Ok(End::Cancelled) => WEnd::Cancelled,
        Ok(End::Hung) => WEnd::Hung,
    };
    let events = match ev.lock() {
        Ok(e) => e.clone(),
        Err(e) => e.into_inner().clone(),
    };
    let dest = match keep.data.lock() {
        Ok(e) => e.clone(),
        Err(e) => e.into_inner().clone(),
    };
    WRun { end, dest, events, w: w.clone() }
}
fn what(s: &Scn) -> String {
    format!("library image creation ({})", s.variant)
}

/// Expected contents; for remapped sources the rules decide.
pub fn lib_expect(s: &Scn, m: &Arc<Model>) -> Result<Model, String> {
    if s.variant == "lib-remap" && !s.list.is_empty() {
        return Ok(crate::build::remap(m, &crate::build::rules_of(&s.list))?.model);
    }
    Ok((**m).clone())
}

pub fn check_events(ev: &[ProgressInfo], img: &Parsed) -> Result<(), String> {
    let mut want: Vec<(bool, String, u64)> = vec![(true, "/".into(), img.root.0 as u64)];
    for e in &img.ents {
        want.push((false, format!("/{}", e.path), e.sector as u64));
        if e.dir {
            want.push((true, format!("/{}", e.path), e.sector as u64));
        }
    }
    // every directory is announced once, with the number of its entries
    let mut kids: std::collections::BTreeMap<String, usize> = std::collections::BTreeMap::from([(String::new(), 0)]);
    for e in &img.ents {
        *kids.entry(e.path.rsplit_once('/').map(|x| x.0.to_string()).unwrap_or_default()).or_default() += 1;
        if e.dir {
            kids.entry(e.path.clone()).or_default();
        }
    }
    let mut kids: Vec<usize> = kids.into_values().collect();
    kids.sort();
    let mut found = vec![];
    let (mut files, mut dirs, mut got, mut fin) = (None, None, vec![], 0);
    for (i, e) in ev.iter().enumerate() {
        match e {
            ProgressInfo::FileCount(n) => {
                if files.replace(*n).is_some() || !got.is_empty() {
                    return Err("the file count is announced twice or late".into());
                }
            }
            ProgressInfo::DirCount(n) => {
                if dirs.replace(*n).is_some() || !got.is_empty() {
                    return Err("the directory count is announced twice or late".into());
                }
            }
            ProgressInfo::DiscoveredDirectory(n) => {
                if files.is_some() || dirs.is_some() || !got.is_empty() {
                    return Err("a directory is discovered after the counts are announced".into());
                }
                found.push(*n);
            }
            ProgressInfo::DirAdded(p, s) => got.push((true, p.clone(), *s)),
            ProgressInfo::FileAdded(p, s) => got.push((false, p.clone(), *s)),
            ProgressInfo::FinishedPacking => {
                fin += 1;
                if i + 1 != ev.len() {
                    return Err("completion is not the last report".into());
                }
            }
            _ => {}
        }
    }
    found.sort();
    if found != kids {
        return Err(format!("directories with {:?} entries are discovered, but the image has directories with {:?} entries", found, kids));
    }
    if fin != 1 {
        return Err(format!("completion is reported {} times", fin));
    }
    let total = files.unwrap_or(0) + dirs.unwrap_or(0);
    if total != got.len() {
        return Err(format!("announced {} entries but reported {}", total, got.len()));
    }
    want.sort();
    got.sort();
    if want != got {
        let x = want.iter().find(|x| !got.contains(x));
        let y = got.iter().find(|x| !want.contains(x));
        return Err(format!("progress does not match the image: expected {:?}, reported {:?}", x, y));
    }
    Ok(())
}

/// C01, C02, C03, C12, C13, C19 over the library: must succeed and be right.
pub fn exec_write_lib(s: &Scn, strict: bool) -> Outcome {
    let mut o = Outcome::default();
    let m = lib_model(s);
    let expect = match lib_expect(s, &m) {
        Ok(e) => e,
        Err(_) => return o, // conflicting rules: outside the property
    };
    let r = lib_write(s);
    finish(&mut o, &r.w);
    o.nontrivial = !m.is_empty();
    match &r.end {
        WEnd::Ok => o.exit_ok = true,
        WEnd::Err(e) => o.fail(format!("{} fails on a representable source: {}", what(s), e)),
        WEnd::Panic(p) => o.fail(format!("{} panics: {}", what(s), p)),
        WEnd::Hung => o.fail(format!("{} does not end", what(s))),
        WEnd::Cancelled => o.harness = Some("unexpected cancellation".into()),
    }
    if o.failed() {
        return o;
    }
    match parse(&r.dest, strict) {
        Err(e) => o.fail(format!("{} reports success, but the image is malformed: {}", what(s), e)),
        Ok(p) => {
            if let Some(d) = diff(&expect, &p.model) {
                o.fail(format!("{} reports success, but: {}", what(s), d));
            } else if s.prop == "C19" {
                if let Err(e) = check_events(&r.events, &p) {
                    o.fail(format!("{}: {}", what(s), e));
                }
            }
        }
    }
    o
}
fn complete(expect: &Model, d: &FileData, strict: bool) -> Result<(), String> {
    let p = parse(d, strict)?;
    match diff(expect, &p.model) {
        None => Ok(()),
        Some(d) => Err(d),
    }
}
pub fn exec_c05_lib(s: &Scn) -> Outcome {
    let mut o = Outcome::default();
    let m = lib_model(s);
    let r = lib_write(s);
    finish(&mut o, &r.w);
    o.nontrivial = !o.fired_list.is_empty() || s.s.contains_key("shrink");
    match &r.end {
        WEnd::Ok => {
            o.exit_ok = true;
            if let Err(e) = complete(&m, &r.dest, true) {
                o.fail(format!("{} reports success although an operation failed, and the output is not complete: {}", what(s), e));
            }
        }
        WEnd::Hung => o.fail(format!("{} does not end", what(s))),
        WEnd::Panic(p) => o.fail(format!("{} panics instead of reporting an error: {}", what(s), p)),
        _ => {}
    }
    o
}
pub fn exec_c06_lib(s: &Scn) -> Outcome {
    let mut o = Outcome::default();
    let m = lib_model(s);
    let r = lib_write(s);
    finish(&mut o, &r.w);
    o.nontrivial = !o.fired_list.is_empty();
    o.exit_ok = matches!(r.end, WEnd::Ok);
    if recognised(&r.dest).is_some() {
        if let Err(e) = complete(&m, &r.dest, false) {
            o.fail(format!("{} stopped early: the output is recognised as a volume but incomplete: {}", what(s), e));
        }
    }
    o
}
/// C19 with faults: no completion report unless it succeeded.
pub fn exec_c19_faulty(s: &Scn) -> Outcome {
    let mut o = Outcome::default();
    let r = lib_write(s);
    finish(&mut o, &r.w);
    o.nontrivial = !o.fired_list.is_empty();
    o.exit_ok = matches!(r.end, WEnd::Ok);
    let fin = r.events.iter().filter(|e| matches!(e, ProgressInfo::FinishedPacking)).count();
    if !o.exit_ok && fin > 0 {
        o.fail(format!("{} fails or is abandoned but reported completion", what(s)));
    }
    if o.exit_ok {
        match parse(&r.dest, false) {
            Err(e) => o.fail(format!("{} reports success and completion, but: {}", what(s), e)),
            Ok(p) => {
                if let Err(e) = check_events(&r.events, &p) {
                    o.fail(format!("{}: {}", what(s), e));
                }
            }
        }
    }
    o
}
/// C18: sources that cannot be represented must be refused; those at the limit packed.
pub fn exec_c18_lib(s: &Scn) -> Outcome {
    let mut o = Outcome::default();
    let m = lib_model(s);
    let r = lib_write(s);
    finish(&mut o, &r.w);
    o.nontrivial = true;
    let refuse = s.num("refuse") == 1;
    match &r.end {
        WEnd::Panic(p) => o.fail(format!("{} panics on {}: {}", what(s), s.str("case"), p)),
        WEnd::Hung => o.fail(format!("{} does not end on {}", what(s), s.str("case"))),
        WEnd::Ok if refuse => o.fail(format!("{} accepts {}", what(s), s.str("case"))),
        WEnd::Err(e) if !refuse => o.fail(format!("{} refuses {}, which can be represented: {}", what(s), s.str("case"), e)),
        WEnd::Err(_) => {
            if recognised(&r.dest).is_some() {
                o.fail(format!("{} refuses {} but leaves a recognised image", what(s), s.str("case")));
            }
        }
        WEnd::Ok => match parse(&r.dest, true) {
            Err(e) => o.fail(format!("{} on {}: malformed image: {}", what(s), s.str("case"), e)),
            Ok(p) => {
                if let Some(d) = diff(&m, &p.model) {
                    o.fail(format!("{} on {}: {}", what(s), s.str("case"), d));
                }
            }
        },
        _ => {}
    }
    o
}

// ------------------------------------------------------------------ reading
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ans {
    Lines(Vec<String>),
    Data(u64, u64), // length, hash
    Text(String),
    /// the path does not exist or has the wrong type
    No,
    /// a device error
    Io,
    Other(String),
}
fn data(b: &[u8]) -> Ans {
    Ans::Data(b.len() as u64, fnv(3, b))
}
fn line(path: &str, dir: bool, sector: u32, size: u32) -> String {
    format!("{}|{}|{}|{}", path, dir, sector, size)
}
fn node_line(parent: &str, n: &DirectoryEntryNode) -> String {
    let name = decode_name(n.name_slice());
    let p = if parent.is_empty() { name } else { format!("{}/{}", parent, name) };
    line(&p, n.node.dirent.is_directory(), n.node.dirent.data.sector, n.node.dirent.data.size)
}
fn err(e: XErr<SimErr>) -> Ans {
    match e {
        XErr::IOError(_) => Ans::Io,
        XErr::DoesNotExist | XErr::IsNotDirectory | XErr::DirectoryEmpty | XErr::NoDirent => Ans::No,
        e => Ans::Other(format!("{:?}", e)),
    }
}

pub fn open_dev(w: &Wd, img: &SimDisk) -> End<Result<(Dev, VolumeDescriptor), XErr<SimErr>>> {
    let d = SimDisk { w: w.clone(), data: img.data.clone() };
    run1(w, async move {
        let mut dev = OffsetWrapper::new(d).await?;
        let v = xdvdfs::read::read_volume(&mut dev).await?;
        Ok((dev, v))
    })
}
async fn table(dev: &mut Dev, vol: &VolumeDescriptor, path: &str) -> Result<DirectoryEntryTable, XErr<SimErr>> {
    if path.trim_matches('/').is_empty() {
        return Ok(vol.root_table);
    }
    let n = vol.root_table.walk_path(dev, path).await?;
    n.node.dirent.dirent_table().ok_or(XErr::IsNotDirectory)
}
/// One library call: "walk|dir|spell", "scan|…", "tree", "look|…", "all|path|spell", "prefix|path|spell|n", "range|path|spell|off|n", "sum", "root"
pub async fn call(dev: &mut Dev, vol: &VolumeDescriptor, q: &str) -> Ans {
    let f: Vec<&str> = q.split('|').collect();
    let path = f.get(1).copied().unwrap_or("");
    let num = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    let sp = respell(path, num(2));
    let r: Result<Ans, XErr<SimErr>> = async {
        Ok(match f[0] {
            "walk" => {
                let t = table(dev, vol, &sp).await?;
                let mut v: Vec<String> = t.walk_dirent_tree(dev).await?.iter().map(|n| node_line("", n)).collect();
                v.sort();
                Ans::Lines(v)
            }
            "scan" => {
                let t = table(dev, vol, &sp).await?;
                let mut it = t.scan_dirent_tree(dev).await?;
                let mut v = vec![];
                while let Some(n) = it.next_entry().await? {
                    v.push(node_line("", &n));
                }
                v.sort();
                Ans::Lines(v)
            }
            "tree" => {
                let mut v: Vec<String> =
                    vol.root_table.file_tree(dev).await?.iter().map(|(p, n)| node_line(p.trim_start_matches('/'), n)).collect();
                v.sort();
                Ans::Lines(v)
            }
            "root" => match vol.root_dirent(dev).await? {
                None => Ans::No,
                Some(n) => Ans::Text(node_line("", &n)),
            },
            "look" => Ans::Text(node_line("", &vol.root_table.walk_path(dev, &sp).await?)),
            "all" => {
                let n = vol.root_table.walk_path(dev, &sp).await?;
                data(&n.node.dirent.read_data_all(dev).await?)
            }
            "prefix" => {
                let n = vol.root_table.walk_path(dev, &sp).await?;
                let k = num(3).min(n.node.dirent.data.size as u64);
                let mut b = vec![0u8; k as usize];
                n.node.dirent.read_data(dev, &mut b).await?;
                data(&b)
            }
            "range" => {
                let n = vol.root_table.walk_path(dev, &sp).await?;
                data(&n.node.dirent.read_data_offset(dev, num(4), num(3)).await?)
            }
            "sum" => Ans::Text(xdvdfs::checksum::checksum(dev, vol).await?.iter().map(|x| format!("{:02x}", x)).collect()),
            c => panic!("unknown call {}", c),
        })
    }
    .await;
    r.unwrap_or_else(err)
}
/// What a call must answer.
pub fn expected(t: &Truth, q: &str) -> Ans {
    let f: Vec<&str> = q.split('|').collect();
    let path = f.get(1).copied().unwrap_or("");
    let num = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    let want = fold(path);
    let key: Option<String> = if path.is_empty() { Some(String::new()) } else { t.model.keys().find(|k| fold(k) == want).cloned() };
    let isdir = |k: &str| k.is_empty() || t.model[k].is_none();
    let l = |k: &str, full: bool| {
        let name = if full { k } else { k.rsplit('/').next().unwrap() };
        line(name, isdir(k), t.ext[k].0, t.ext[k].1)
    };
    match f[0] {
        "walk" | "scan" => match key {
            Some(k) if isdir(&k) => {
                let mut v: Vec<String> = children(&t.model, &k)
                    .iter()
                    .map(|c| l(&if k.is_empty() { c.clone() } else { format!("{}/{}", k, c) }, false))
                    .collect();
                v.sort();
                Ans::Lines(v)
            }
            _ => Ans::No,
        },
        "tree" => {
            let mut v: Vec<String> = t.model.keys().map(|k| l(k, true)).collect();
            v.sort();
            Ans::Lines(v)
        }
        "look" => match key {
            Some(k) if !k.is_empty() => Ans::Text(l(&k, false)),
            _ => Ans::No,
        },
        "all" | "prefix" | "range" => match key {
            Some(k) if !k.is_empty() && !isdir(&k) => {
                let fd = t.model[&k].as_ref().unwrap();
                let (o, n) = match f[0] {
                    "all" => (0, fd.len),
                    "prefix" => (0, num(3).min(fd.len)),
                    _ => (num(3).min(fd.len), num(4).min(fd.len.saturating_sub(num(3)))),
                };
                let mut b = vec![0; n as usize];
                fd.read_at(o, &mut b);
                data(&b)
            }
            _ => Ans::No,
        },
        "sum" => Ans::Text(content_sum(&t.model)),
        _ => Ans::No,
    }
}
/// Whether an answer is right; reading a directory as a file is not judged.
pub fn judge(t: &Truth, q: &str, got: &Ans) -> Result<(), String> {
    let f: Vec<&str> = q.split('|').collect();
    if f[0] == "root" {
        let ok = match got {
            Ans::No => t.model.is_empty(),
            Ans::Text(x) => children(&t.model, "").iter().any(|c| *x == line(c, t.model[c].is_none(), t.ext[c].0, t.ext[c].1)),
            _ => false,
        };
        return if ok { Ok(()) } else { Err(format!("{:?}", got)) };
    }
    if matches!(f[0], "all" | "prefix" | "range") {
        let w = fold(f[1]);
        if t.model.iter().any(|(k, v)| fold(k) == w && v.is_none()) {
            return Ok(());
        }
    }
    let want = expected(t, q);
    if &want == got {
        return Ok(());
    }
    let show = |a: &Ans| match a {
        Ans::Lines(v) => format!("{} entries", v.len()),
        a => format!("{:?}", a),
    };
    if let (Ans::Lines(a), Ans::Lines(b)) = (&want, got) {
        let x = a.iter().find(|x| !b.contains(x));
        let y = b.iter().find(|x| !a.contains(x));
        return Err(format!("expected {} entries, got {}; missing {:?}, unexpected {:?}", a.len(), b.len(), x, y));
    }
    Err(format!("expected {}, got {}", show(&want), show(got)))
}

fn img_of(s: &Scn) -> (Built, Truth) {
    let b = build_image(&s.tree, s.img.as_ref().unwrap_or(&ImgOpts::default()));
    let t = truth_of_built(&s.tree, &b);
    (b, t)
}

pub fn exec_c08_lib(s: &Scn) -> Outcome {
    let mut o = Outcome::default();
    let (b, t) = img_of(s);
    let w = world(mix2(s.seed, 78), s.pend, &[], 3_000_000);
    let disk = SimDisk::new(&w, b.img);
    o.nontrivial = !s.tree.is_empty();
    if s.variant == "lib-many" {
        let (w2, disk) = (w.clone(), disk.clone());
        let r = guard(move || many(s, &w2, &disk, &t, 4));
        fin_many(&mut o, r);
        finish(&mut o, &w);
        return o;
    }
    let r = guard(|| -> Result<(), String> {
        let (mut dev, vol) = match open_dev(&w, &disk) {
            End::Done(Ok(x)) => x,
            End::Done(Err(e)) => return Err(format!("the volume is not recognised: {:?}", e)),
            _ => return Err("opening the volume does not end".into()),
        };
        if dev.get_offset() != b.part {
            return Err(format!("the partition is located at {} instead of {}", dev.get_offset(), b.part));
        }
        for q in &s.list {
            match run1(&w, call(&mut dev, &vol, q)) {
                End::Done(a) => judge(&t, q, &a).map_err(|e| format!("library call {:?}: {}", q, e))?,
                _ => return Err(format!("library call {:?} does not end", q)),
            }
        }
        Ok(())
    });
    match r {
        Err(p) => o.fail(format!("the library panics on a valid image: {}", p)),
        Ok(Err(e)) => o.fail(e),
        _ => {}
    }
    finish(&mut o, &w);
    o
}
fn fin_many(o: &mut Outcome, r: Result<Result<(u64, u64), String>, String>) {
    match r {
        Err(p) => o.fail(format!("the library panics: {}", p)),
        Ok(Err(e)) => o.fail(e),
        Ok(Ok((_, h))) => o.hash = mix2(o.hash, h),
    }
}
/// Several readers on handles of their own, interleaved at every suspension point.
fn many(s: &Scn, w: &Wd, disk: &SimDisk, t: &Truth, n: u64) -> Result<(u64, u64), String> {
    {
        let mut g = w.lock().unwrap();
        g.pend = g.pend.max(1);
    }
    let errs: Arc<Mutex<Vec<String>>> = Default::default();
    let mut tasks: Vec<Pin<Box<dyn Future<Output = ()>>>> = vec![];
    let t = Arc::new(Truth { model: t.model.clone(), ext: t.ext.clone(), ent: t.ent.clone(), root: t.root });
    for k in 0..n {
        let mut qs = s.list.clone();
        Rng::new(mix2(s.seed, k)).shuffle(&mut qs);
        let d = SimDisk { w: w.clone(), data: disk.data.clone() };
        let (errs, t) = (errs.clone(), t.clone());
        tasks.push(Box::pin(async move {
            let r: Result<(), String> = async {
                let mut dev = OffsetWrapper::new(d).await.map_err(|e| format!("{:?}", e))?;
                let vol = xdvdfs::read::read_volume(&mut dev).await.map_err(|e| format!("{:?}", e))?;
                for q in &qs {
                    let a = call(&mut dev, &vol, q).await;
                    judge(&t, q, &a).map_err(|e| format!("library call {:?}: {}", q, e))?;
                }
                Ok(())
            }
            .await;
            if let Err(e) = r {
                errs.lock().unwrap().push(format!("reader {} of {} interleaved readers: {}", k, n, e));
            }
        }));
    }
    // a writer of the same contents to a device of its own
    {
        let m = Arc::new(t.model.clone());
        let (w, errs) = (w.clone(), errs.clone());
        let src = SimDisk { w: w.clone(), data: disk.data.clone() };
        let seed = s.seed;
        tasks.push(Box::pin(async move {
            let mut dest = SimDisk::new(&w, FileData::default());
            let r: Result<(), String> = async {
                let ev = Events::default();
                if seed & 1 == 0 {
                    let d = OffsetWrapper::new(src).await.map_err(|e| format!("{:?}", e))?;
                    let fs = XDVDFSFilesystem::new(d).await.ok_or("not recognised")?;
                    write_once(&mut AnyFs::Img(fs), &mut dest, &ev).await
                } else {
                    write_once(&mut AnyFs::Fs(SimFs::new(&w, &m, 2, seed)), &mut dest, &ev).await
                }
            }
            .await;
            let r = r.and_then(|_| complete(&m, &dest.data.lock().unwrap(), true));
            if let Err(e) = r {
                errs.lock().unwrap().push(format!("writer interleaved with {} readers: {}", n, e));
            }
        }));
    }
    let r = run_many(mix2(s.seed, 0x5c4ed), tasks, 20_000_000)?;
    let e = errs.lock().unwrap();
    match e.first() {
        Some(e) => Err(e.clone()),
        None => Ok(r),
    }
}

// ------------------------------------------------------------------ C17
pub fn exec_c17(s: &Scn) -> Outcome {
    let mut o = Outcome::default();
    let w = world(mix2(s.seed, 79), s.pend, &s.fault_list(), 3_000_000);
    o.nontrivial = !s.faults.is_empty();
    let r = match s.variant.as_str() {
        "lib-read" => {
            let (b, t) = img_of(s);
            let disk = SimDisk::new(&w, b.img);
            guard(|| c17_read(s, &w, &disk, &t))
        }
        "lib-many" => {
            let (b, t) = img_of(s);
            let disk = SimDisk::new(&w, b.img);
            o.nontrivial = true;
            let r = guard(|| many(s, &w, &disk, &t, 1 + s.seed % 4));
            fin_many(&mut o, r);
            finish(&mut o, &w);
            return o;
        }
        _ => guard(|| c17_write(s, &w)),
    };
    match r {
        Err(p) => o.fail(format!("the library panics: {}", p)),
        Ok(Err(e)) => o.fail(e),
        _ => {}
    }
    finish(&mut o, &w);
    o
}
fn fired(w: &Wd) -> usize {
    w.lock().unwrap().fired.len()
}
fn c17_read(s: &Scn, w: &Wd, disk: &SimDisk, t: &Truth) -> Result<(), String> {
    let mut tries = 0;
    let (mut dev, vol) = loop {
        let before = fired(w);
        match open_dev(w, disk) {
            End::Done(Ok(x)) => break x,
            End::Done(Err(e)) if fired(w) == before => return Err(format!("opening a valid volume fails: {:?}", e)),
            End::Hung => return Err("opening the volume does not end".into()),
            _ => {}
        }
        tries += 1;
        if tries > 20 {
            return Err("the volume cannot be opened after the device recovered".into());
        }
    };
    // the checksum is compared with the one a faultless device gives
    let mut base = None;
    if s.list.iter().any(|q| q == "sum") {
        let w0 = world(1, 0, &[], 3_000_000);
        let d0 = SimDisk { w: w0.clone(), data: disk.data.clone() };
        if let End::Done(Ok((mut dev, vol))) = open_dev(&w0, &d0) {
            if let End::Done(a) = run1(&w0, call(&mut dev, &vol, "sum")) {
                base = Some(a);
            }
        }
    }
    for q in &s.list {
        let mut tries = 0;
        loop {
            let before = fired(w);
            let (a, complete) = if q.starts_with("scan|") { c17_scan(w, &mut dev, &vol, q) } else {
                match run1(w, call(&mut dev, &vol, q)) {
                    End::Done(a) => (a, true),
                    End::Hung => return Err(format!("library call {:?} does not end", q)),
                    End::Cancelled => (Ans::Io, false),
                }
            };
            let hit = fired(w) > before;
            if complete && a != Ans::Io {
                if q == "sum" {
                    if Some(&a) != base.as_ref() {
                        return Err(format!("the checksum is {:?} on a device that fails and recovers, {:?} on a faultless one", a, base));
                    }
                    break;
                }
                judge(t, q, &a).map_err(|e| {
                    format!("library call {:?} (attempt {}{}): {}", q, tries + 1, if hit { ", during which the device failed" } else { "" }, e)
                })?;
                break;
            }
            if complete && !hit {
                return Err(format!("library call {:?} (attempt {}) reports a device error although the device works again", q, tries + 1));
            }
            tries += 1;
            if tries > 20 {
                return Err(format!("library call {:?} does not succeed after the device recovered", q));
            }
        }
    }
    Ok(())
}
/// A scan whose iterator is kept across failed and abandoned steps.
fn c17_scan(w: &Wd, dev: &mut Dev, vol: &VolumeDescriptor, q: &str) -> (Ans, bool) {
    let f: Vec<&str> = q.split('|').collect();
    let sp = respell(f[1], f[2].parse().unwrap_or(0));
    let t = match run1(w, table(dev, vol, &sp)) {
        End::Done(Ok(t)) => t,
        End::Done(Err(e)) => return (err(e), true),
        End::Hung => return (Ans::Other("lookup does not end".into()), true),
        End::Cancelled => return (Ans::Io, false),
    };
    let mut it = match run1(w, t.scan_dirent_tree(dev)) {
        End::Done(Ok(t)) => t,
        End::Done(Err(e)) => return (err(e), true),
        End::Hung => return (Ans::Other("scan does not end".into()), true),
        End::Cancelled => return (Ans::Io, false),
    };
    let mut v = vec![];
    let mut tries = 0;
    loop {
        let before = fired(w);
        match run1(w, it.next_entry()) {
            End::Done(Ok(Some(n))) => v.push(node_line("", &n)),
            End::Done(Ok(None)) => break,
            End::Done(Err(XErr::IOError(_))) if fired(w) > before && tries < 20 => tries += 1,
            End::Done(Err(e)) => return (Ans::Other(format!("scan step: {:?}", e)), true),
            End::Cancelled => tries += 1,
            End::Hung => return (Ans::Other("scan does not end".into()), true),
        }
        if v.len() > 200_000 {
            return (Ans::Other("scan yields entries without end".into()), true);
        }
    }
    v.sort();
    (Ans::Lines(v), true)
}
/// Image creation retried on the same filesystem object and destination.
fn c17_write(s: &Scn, w: &Wd) -> Result<(), String> {
    let m = lib_model(s);
    let img = if is_img_variant(&s.variant) { Some(build_image(&s.tree, s.img.as_ref().unwrap_or(&ImgOpts::default())).img) } else { None };
    let mut tries = 0;
    let mut fs = loop {
        let before = fired(w);
        match run1(w, make_fs(s, w, &m, img.as_ref())) {
            End::Done(Ok(f)) => break f,
            End::Done(Err(e)) if fired(w) == before => return Err(format!("creating the filesystem object fails: {}", e)),
            End::Hung => return Err("creating the filesystem object does not end".into()),
            _ => {}
        }
        tries += 1;
        if tries > 20 {
            return Err("the filesystem object cannot be created after the device recovered".into());
        }
    };
    let expect = lib_expect(s, &m)?;
    let mut dest = SimDisk::new(w, FileData::default());
    let mut tries = 0;
    loop {
        let ev = Events::default();
        let before = fired(w);
        match run1(w, write_once(&mut fs, &mut dest, &ev)) {
            End::Done(Ok(())) => break,
            End::Done(Err(e)) if fired(w) == before => return Err(format!("{} (attempt {}) fails although nothing fails any more: {}", what(s), tries + 1, e)),
            End::Hung => return Err(format!("{} does not end", what(s))),
            _ => {}
        }
        tries += 1;
        if tries > 20 {
            return Err(format!("{} does not succeed after the device recovered", what(s)));
        }
        // half of the time into a fresh device
        if mix2(s.seed, tries) & 1 == 0 {
            dest = SimDisk::new(w, FileData::default());
        }
    }
    let d = dest.data.lock().unwrap().clone();
    let p = parse(&d, true).map_err(|e| format!("{} after {} failed attempts: malformed image: {}", what(s), tries, e))?;
    match diff(&expect, &p.model) {
        None => Ok(()),
        Some(d) => Err(format!("{} after {} failed attempts: {}", what(s), tries, d)),
    }
}

// ------------------------------------------------------------------ C09
pub fn exec_c09_lib(s: &Scn, img: FileData, cmds: &[String]) -> Outcome {
    let mut o = Outcome::default();
    o.nontrivial = true;
    let limit = 200_000 + img.len / 8;
    for c in cmds {
        if c == "compress" && crate::image::announced(&img) > 1 << 30 {
            continue;
        }
        let w = world(mix2(s.seed, 80), s.pend, &s.fault_list(), limit);
        let disk = SimDisk::new(&w, img.clone());
        let r = guard(|| -> Result<(), String> {
            if c == "repack" || c == "compress" {
                let mut s2 = s.clone();
                s2.variant = if c == "repack" { "lib-img".into() } else { "lib-linear-img".into() };
                let r = lib_write_from(&s2, &w, &Default::default(), Some(&img));
                return match r.end {
                    WEnd::Hung => Err("does not end".into()),
                    WEnd::Panic(p) => Err(format!("panics: {}", p)),
                    _ => Ok(()),
                };
            }
            let (mut dev, vol) = match open_dev(&w, &disk) {
                End::Done(Ok(x)) => x,
                End::Done(Err(_)) => return Ok(()),
                _ => return Err("does not end".into()),
            };
            match run1(&w, call(&mut dev, &vol, c)) {
                End::Done(_) => Ok(()),
                _ => Err("does not end".into()),
            }
        });
        finish(&mut o, &w);
        match r {
            Err(p) => o.fail(format!("library call {:?} on a damaged image panics: {}", c, p)),
            Ok(Err(e)) => o.fail(format!("library call {:?} on a damaged image {}", c, e)),
            _ => {}
        }
        if o.failed() {
            return o;
        }
    }
    o
}

// ------------------------------------------------------------------ C11
pub fn exec_c11_lib(s: &Scn) -> Outcome {
    let mut o = Outcome::default();
    o.nontrivial = true;
    let m = model(&s.tree);
    let mut edited = s.tree.clone();
    let mut changed = false;
    for e in &s.list {
        changed |= apply_edit(&mut edited, e);
    }
    let mut imgs = vec![(build_image(&s.tree, &s.img.clone().unwrap_or_default()).img, m.clone(), "first layout")];
    let mut r = Rng::new(mix2(s.seed, 5));
    imgs.push((build_image(&s.tree, &gen_img(&mut r, true)).img, m.clone(), "second layout"));
    if changed {
        imgs.push((build_image(&edited, &gen_img(&mut r, false)).img, model(&edited), "edited"));
    }
    let mut sums = vec![];
    for (i, (img, _, _)) in imgs.iter().enumerate() {
        let w = world(mix2(s.seed, 90 + i as u64), s.pend, &s.fault_list(), 3_000_000);
        let disk = SimDisk::new(&w, img.clone());
        let r = guard(|| match open_dev(&w, &disk) {
            End::Done(Ok((mut dev, vol))) => match run1(&w, call(&mut dev, &vol, "sum")) {
                End::Done(Ans::Text(t)) => Ok(t),
                End::Done(a) => Err(format!("{:?}", a)),
                _ => Err("does not end".into()),
            },
            _ => Err("the volume cannot be opened".to_string()),
        });
        finish(&mut o, &w);
        match r {
            Ok(Ok(t)) => sums.push(t),
            Ok(Err(_)) if fired(&w) > 0 => return o,
            Ok(Err(e)) => {
                o.fail(format!("library checksum of a valid image: {}", e));
                return o;
            }
            Err(p) => {
                o.fail(format!("library checksum panics: {}", p));
                return o;
            }
        }
    }
    for i in 1..imgs.len() {
        let same = diff(&imgs[i].1, &m).is_none();
        let same_stream = content_sum(&imgs[i].1) == content_sum(&m);
        if same && sums[i] != sums[0] {
            o.fail(format!("equal contents in different layouts have different checksums: {} / {}", sums[0], sums[i]));
        } else if !same && !same_stream && sums[i] == sums[0] {
            o.fail(format!("different contents have the same checksum {} (edits: {:?})", sums[0], s.list));
        }
    }
    for (i, x) in imgs.iter().enumerate() {
        let want = content_sum(&x.1);
        if !o.failed() && sums[i] != want {
            o.fail(format!("the library checksum ({}) is {}, but the SHA3-256 of the sorted paths and contents is {}", x.2, sums[i], want));
        }
    }
    o
}


// ------------------------------------------------------------------ C13
pub fn exec_c13_lib(s: &Scn) -> Outcome {
    let mut o = exec_write_lib(s, false);
    if o.failed() {
        return o;
    }
    // the listing of mappings
    let m = lib_model(s);
    let Ok(want) = crate::build::remap(&m, &crate::build::rules_of(&s.list)) else { return o };
    let w = world(mix2(s.seed, 81), s.pend, &[], 3_000_000);
    let r = guard(|| match run1(&w, make_fs(s, &w, &m, None)) {
        End::Done(Ok(AnyFs::Remap(f))) => {
            let v: Vec<String> = f.dump().iter().map(|(h, g)| format!("{} -> {}", h.as_string(), g.as_string())).collect();
            crate::build::check_dry(&want, v.join("\n").as_bytes())
        }
        End::Done(Err(e)) => Err(e),
        _ => Err("does not end".into()),
    });
    finish(&mut o, &w);
    match r {
        Err(p) => o.fail(format!("the library panics: {}", p)),
        Ok(Err(e)) => o.fail(format!("library mapping list: {}", e)),
        _ => {}
    }
    o
}
