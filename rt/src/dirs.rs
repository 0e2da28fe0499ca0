//! C12: rebuilding from a directory. Everything happens in a fresh directory under the system's
//! temporary directory, removed afterwards.
use crate::build::{inspect_disc, Def};
use crate::oracle::*;
use crate::{ensure, step, R};
use disc_riider::builder::build_from_directory;
use std::collections::HashMap;
use std::fs;
use std::io::Cursor;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};

static N: AtomicU64 = AtomicU64::new(0);
pub fn scratch() -> PathBuf {
    let d = std::env::temp_dir().join(format!("vp_rt_{}_{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
    fs::create_dir_all(&d).expect("scratch directory");
    d
}

struct Gone(PathBuf);
impl Drop for Gone {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

fn lower(s: &str) -> Vec<u8> {
    s.bytes().map(|b| b.to_ascii_lowercase()).collect()
}

fn gen(r: &mut Rng, depth: u32, k: &mut u32) -> Vec<Tree> {
    let n = r.below(5);
    let mut out: Vec<Tree> = Vec::new();
    for _ in 0..n {
        *k += 1;
        let name = match r.below(5) {
            0 => format!("f{k}.bin"),
            1 => format!("Data{k}"),
            2 => format!("データ{k}"),
            3 => format!("_{k}"),
            _ => format!("{k}Z"),
        };
        if depth < 3 && r.chance(1, 3) {
            let kids = gen(r, depth + 1, k);
            // empty directories are not kept by the scan
            fn any(t: &[Tree]) -> bool {
                t.iter().any(|n| match n { Tree::F { .. } => true, Tree::D { kids, .. } => any(kids) })
            }
            if any(&kids) {
                out.push(Tree::D { name, kids });
            }
        } else {
            out.push(Tree::F { name, off: 0, len: 0 });
        }
    }
    out.sort_by(|a, b| lower(a.name()).cmp(&lower(b.name())));
    out
}

fn lay(r: &mut Rng, t: &mut [Tree], at: &PathBuf, path: &mut Vec<String>, files: &mut HashMap<Vec<String>, (Vec<u8>, u32)>) {
    for n in t {
        path.push(n.name().into());
        let p = at.join(n.name());
        match n {
            Tree::D { kids, .. } => {
                fs::create_dir_all(&p).unwrap();
                lay(r, kids, &p, path, files)
            }
            Tree::F { len, .. } => {
                let l = match r.below(5) {
                    0 => 0,
                    1 => r.below(0x100),
                    2 => r.below(0x20000),
                    3 if files.len() < 4 => GPAY as u64 / 2 + r.below(0x20000),
                    _ => r.below(0x41),
                };
                *len = l as u32;
                let b = r.bytes(l as usize);
                fs::write(&p, &b).unwrap();
                files.insert(path.clone(), (b, 0));
            }
        }
        path.pop();
    }
}

pub fn c12(r: &mut Rng, case: u64) -> R {
    let g = Gone(scratch());
    let root = &g.0;
    let data = root.join("DATA");
    for d in ["sys", "disc", "files"] {
        fs::create_dir_all(data.join(d)).unwrap();
    }
    let mut k = 0;
    let mut tree = gen(r, 0, &mut k);
    let mut files = HashMap::new();
    lay(r, &mut tree, &data.join("files"), &mut vec![], &mut files);
    let mut head = header_bytes("rebuilt", 4 * r.below(50), 4 * r.below(50), 4 * r.below(50), r);
    head[0x60] = r.below(3) as u8;
    head[0x61] = r.below(3) as u8;
    let key: [u8; 16] = r.arr();
    let tid = r.arr();
    let idx = r.below(2) as u8;
    let nc = 1 + r.below(3) as usize;
    let app = { let n = 0x20 + r.below(0x3000) as usize; r.bytes(n) };
    let dol = { let n = 0x100 + r.below(0x9000) as usize; r.bytes(n) };
    let d = Def {
        ptype: 0, head, bi2: r.bytes(0x2000), app, dol, tree, files, asked: vec![], fail_at: None, announce: false,
        ticket: ticket_bytes(&key, idx, &tid, r), key, tmd: tmd_bytes(nc, r), certs: certs_bytes(r),
    };
    let region: [u8; 32] = r.arr();
    fs::write(data.join("sys/boot.bin"), &d.head).unwrap();
    fs::write(data.join("sys/bi2.bin"), &d.bi2).unwrap();
    fs::write(data.join("sys/apploader.img"), &d.app).unwrap();
    fs::write(data.join("sys/main.dol"), &d.dol).unwrap();
    if r.chance(1, 2) {
        // extraction leaves the old table there; a rebuild does not use it
        fs::write(data.join("sys/fst.bin"), r.bytes(40)).unwrap();
    }
    fs::write(data.join("disc/region.bin"), region).unwrap();
    fs::write(data.join("ticket.bin"), &d.ticket).unwrap();
    fs::write(data.join("tmd.bin"), &d.tmd).unwrap();
    fs::write(data.join("cert.bin"), &d.certs).unwrap();
    let mut names: Vec<_> = d.files.iter().map(|(p, f)| format!("{}:{:#x}", p.join("/"), f.0.len())).collect();
    names.sort();
    step!("directory with files [{}]", names.join(", "));
    let mut img = Cursor::new(Vec::new());
    if case % 4 == 3 {
        let what = r.below(5);
        let msg = match what {
            0 => {
                let f = *r.pick(&["sys/boot.bin", "sys/bi2.bin", "sys/apploader.img", "sys/main.dol", "disc/region.bin", "ticket.bin", "tmd.bin", "cert.bin"]);
                fs::remove_file(data.join(f)).unwrap();
                format!("{f} missing")
            }
            1 => {
                fs::write(data.join("files/caSe"), b"1").unwrap();
                fs::write(data.join("files/CasE"), b"2").unwrap();
                "two names differing only in case".into()
            }
            2 => {
                let nm = *r.pick(&["é", "\u{a5}en", "😀"]);
                fs::write(data.join("files").join(nm), b"1").unwrap();
                format!("a file called {nm:?}")
            }
            3 => {
                use std::os::unix::ffi::OsStrExt;
                let nm = std::ffi::OsStr::from_bytes(b"x\xff\xfe");
                fs::write(data.join("files").join(nm), b"1").unwrap();
                "a file name that is not Unicode".into()
            }
            _ => {
                let f = fs::File::create(data.join("files/huge")).unwrap();
                f.set_len((1u64 << 32) + 4 * r.below(3)).unwrap(); // sparse
                "a file of 4 GiB".into()
            }
        };
        step!("{msg}");
        ensure!(build_from_directory(root, &mut img, &mut |_| {}).is_err(), "{msg}: the build succeeded");
        return Ok(());
    }
    step!("build_from_directory");
    build_from_directory(root, &mut img, &mut |_| {}).map_err(|e| format!("build_from_directory: {e}"))?;
    let img = img.into_inner();
    let mut dh = d.head.clone();
    dh[0x60] = 0;
    dh[0x61] = 0;
    let mut out = Vec::new();
    inspect_disc(&img, &dh, &region, &[&d], &mut out);
    // everything but the hash tree, the fakesign and exact layout is this property's business
    if let Some((_, m)) = out.into_iter().find(|o| matches!(o.0, "C10" | "C11" | "C02")) {
        return Err(m);
    }
    // and through the crate's own reader
    let mut rd = disc_riider::WiiIsoReader::open(Cursor::new(img)).map_err(|e| format!("open: {e:?}"))?;
    let e = rd.partitions().first().cloned().ok_or("no partition")?;
    let mut p = rd.open_partition(e).map_err(|e| format!("open_partition: {e:?}"))?;
    for (path, (data, _)) in &d.files {
        use std::io::Read;
        let mut v = Vec::new();
        let mut f = p.open_file(&mut rd, &path.join("/")).ok_or_else(|| format!("{path:?} not found in the rebuilt image"))?;
        f.read_to_end(&mut v).map_err(|e| e.to_string())?;
        ensure!(v == *data, "{path:?} reads back as {} bytes, {} expected, or different data", v.len(), data.len());
    }
    Ok(())
}
