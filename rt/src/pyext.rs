//! C16: the Python extension, built from the tree (VP_PYMOD is the directory it was put in) and driven
//! by rt/py/drive.py. Everything happens in a scratch directory, removed afterwards.
use crate::oracle::*;
use crate::{ensure, step, R};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

struct Gone(PathBuf);
impl Drop for Gone {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        if c == '"' || c == '\\' {
            o.push('\\');
            o.push(c);
        } else if (c as u32) < 0x20 || (c as u32) > 0x7e {
            let mut b = [0u16; 2];
            for u in c.encode_utf16(&mut b) {
                o.push_str(&format!("\\u{u:04x}"));
            }
        } else {
            o.push(c);
        }
    }
    o.push('"');
    o
}

fn gen(r: &mut Rng, depth: u32, k: &mut u32, lo: u64, total: u64) -> Vec<Tree> {
    let n = if depth == 0 { 1 + r.below(5) } else { r.below(5) };
    let mut out = Vec::new();
    for _ in 0..n {
        *k += 1;
        let name = match r.below(6) {
            0 => format!("f{k}.bin"),
            1 => format!("Data{k}"),
            2 => format!("データ{k}"),
            3 => format!("a b{k}"),
            4 => format!("f{}", "x".repeat(r.below(40) as usize)) + &k.to_string(),
            _ => format!("{k}Z"),
        };
        if depth < 3 && r.chance(1, 3) {
            out.push(Tree::D { name, kids: gen(r, depth + 1, k, lo, total) });
        } else {
            // the decrypted size of 0x10000 is the size of the copy buffer
            let len = match r.below(8) {
                0 => 0,
                1 => 0x10000 - 1 + r.below(3),
                2 => 0x20000 - 1 + r.below(3),
                3 => r.below(0x48000),
                4 => r.below(PAY as u64 * 2),
                _ => r.below(300),
            };
            let off = match r.below(4) {
                0 => total - len,
                1 => GPAY as u64 - r.below(len + 1).min(0x8000),
                _ => lo + r.below(total - lo - len + 1),
            } & !3;
            let off = off.min((total - len) & !3);
            out.push(Tree::F { name, off, len: len as u32 });
        }
    }
    out
}
fn walk<'a>(t: &'a [Tree], at: &str, f: &mut Vec<(String, &'a Tree)>) {
    for n in t {
        let p = if at.is_empty() { n.name().to_string() } else { format!("{at}/{}", n.name()) };
        match n {
            Tree::D { kids, .. } => walk(kids, &p, f),
            Tree::F { .. } => f.push((p, n)),
        }
    }
}
fn listing(d: &Path, at: &str, out: &mut BTreeMap<String, Vec<u8>>) -> Result<(), String> {
    for e in fs::read_dir(d).map_err(|e| format!("{d:?}: {e}"))? {
        let e = e.map_err(|e| e.to_string())?;
        let n = e.file_name().into_string().map_err(|n| format!("name {n:?}"))?;
        let p = if at.is_empty() { n } else { format!("{at}/{n}") };
        if e.path().is_dir() {
            listing(&e.path(), &p, out)?;
        } else {
            out.insert(p, fs::read(e.path()).map_err(|e| e.to_string())?);
        }
    }
    Ok(())
}
struct Sec {
    pay: Vec<u8>,
    tree: Vec<Tree>,
    head: Vec<u8>,
    app: usize,
    dol: (usize, usize),
    fst: (usize, usize),
}
fn section(r: &mut Rng) -> Sec {
    let mut pay = r.bytes(2 * GPAY);
    let total = pay.len() as u64;
    let (s1, s2) = (r.below(0x900) as u32, r.below(0x900) as u32);
    put32(&mut pay, 0x2440 + 0x14, s1);
    put32(&mut pay, 0x2440 + 0x18, s2);
    let app = 0x20 + (s1 + s2) as usize;
    let dol = 0x8000usize;
    for i in 0..0x40 {
        put32(&mut pay, dol + 4 * i, 0);
    }
    let sz = 0x20 * r.below(100) as u32;
    put32(&mut pay, dol, 0x100);
    put32(&mut pay, dol + 0x90, sz);
    let mut k = 0;
    let tree = gen(r, 0, &mut k, 0x20000, total);
    let fb = fst_bytes(&tree);
    let fst = 0x10000usize;
    let fsz = (fb.len() + 3) & !3;
    pay[fst..][..fb.len()].copy_from_slice(&fb);
    let head = header_bytes("ext", dol as u64, fst as u64, fsz as u64, r);
    pay[..0x440].copy_from_slice(&head);
    Sec { pay, tree, head, app, dol: (dol, 0x100 + sz as usize), fst: (fst, fsz) }
}

pub fn c16(r: &mut Rng, case: u64) -> R {
    let (Ok(pymod), Ok(drive)) = (std::env::var("VP_PYMOD"), std::env::var("VP_PYDRIVE")) else { std::process::exit(2) };
    let dir = crate::dirs::scratch();
    let _gone = Gone(dir.clone());
    let n = 1 + r.below(2) as usize;
    let secs: Vec<Sec> = (0..n).map(|_| section(r)).collect();
    let parts: Vec<Part> = secs
        .iter()
        .map(|s| Part { ptype: r.below(3) as u32, table: r.below(4) as usize, key: r.arr(), key_idx: 0, payload: s.pay.clone(), data_size: s.pay.len() as u64, hash: false })
        .collect();
    let img = make_image(&parts, r);
    let iso = dir.join("a.iso");
    fs::write(&iso, &img.bytes).map_err(|e| e.to_string())?;
    // which of `secs` is listed at which place
    let mut order: Vec<usize> = Vec::new();
    for t in 0..4 {
        order.extend((0..n).filter(|i| parts[*i].table == t));
    }
    let names = ["DATA", "UPDATE", "CHANNEL"];
    let first = |ty: u32| img.listed.iter().position(|l| l.0 == ty);

    let mut child = Command::new("python3")
        .arg("-B")
        .arg(&drive)
        .arg(&pymod)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap_or_else(|_| std::process::exit(2));
    let mut calls: Vec<(String, bool)> = Vec::new(); // the call, and whether it has to succeed
    calls.push((format!("[\"open\",{}]", q(iso.to_str().unwrap())), true));
    let mut picked: Vec<(u32, usize)> = Vec::new(); // type, place in the list
    let mut left: BTreeMap<u32, BTreeSet<String>> = BTreeMap::new();
    let mut asked: Vec<(usize, BTreeSet<String>)> = Vec::new(); // call, paths it has to be asked about
    for _ in 0..1 + r.below(5) {
        let ty = match r.below(4) {
            0 => r.below(3) as u32,
            _ => img.listed[r.below(img.listed.len() as u64) as usize].0,
        };
        let nm = names[ty as usize];
        let said = match r.below(3) { 0 => nm.to_lowercase(), 1 => format!("{}{}", &nm[..1], nm[1..].to_lowercase()), _ => nm.to_string() };
        if r.chance(1, 2) || !left.contains_key(&ty) {
            let ok = first(ty).is_some() && !left.contains_key(&ty);
            step!("prepare {said}");
            calls.push((format!("[\"prepare\",{}]", q(&said)), ok));
            if ok {
                let at = first(ty).unwrap();
                picked.push((ty, at));
                let mut f = Vec::new();
                walk(&secs[order[at]].tree, "", &mut f);
                left.insert(ty, f.into_iter().map(|x| x.0).collect());
            }
        } else {
            let all = left[&ty].clone();
            let (num, den) = *r.pick(&[(0, 1), (1, 8), (1, 2), (7, 8), (1, 1)]);
            let gone: Vec<String> = all.iter().filter(|_| r.chance(num, den)).cloned().collect();
            step!("remove from {said}: {gone:?}");
            let l = gone.iter().map(|g| q(g)).collect::<Vec<_>>().join(",");
            asked.push((calls.len(), all));
            calls.push((format!("[\"remove\",{},[{l}],{}]", q(&said), r.below(100)), true));
            let s = left.get_mut(&ty).unwrap();
            for g in &gone {
                s.remove(g);
            }
        }
    }
    let mut hashed: Vec<(usize, usize)> = Vec::new(); // call, place in the list
    if r.chance(1, 2) {
        let ty = r.below(3) as u32;
        let at = picked.iter().find(|p| p.0 == ty).map(|p| p.1);
        step!("hash the executable of {}", names[ty as usize]);
        if let Some(at) = at { hashed.push((calls.len(), at)); }
        calls.push((format!("[\"dolhash\",{}]", q(names[ty as usize])), at.is_some()));
    }
    let out = dir.join("out");
    step!("extract {picked:?}");
    calls.push((format!("[\"extract\",{}]", q(out.to_str().unwrap())), true));
    let at_extract = calls.len();
    // only the data partition is rebuilt
    let again = case % 4 == 3 && left.get(&0).is_some_and(|f| !f.is_empty());
    let (iso2, out2) = (dir.join("b.iso"), dir.join("out2"));
    if again {
        step!("rebuild, and extract that");
        fs::write(&iso2, vec![0xEEu8; r.below(0x900000) as usize]).map_err(|e| e.to_string())?;
        calls.push((format!("[\"rebuild\",{},{}]", q(out.to_str().unwrap()), q(iso2.to_str().unwrap())), true));
        calls.push((format!("[\"open\",{}]", q(iso2.to_str().unwrap())), true));
        calls.push(("[\"prepare\",\"DATA\"]".into(), true));
        calls.push((format!("[\"extract\",{}]", q(out2.to_str().unwrap())), true));
    }
    let text: String = calls.iter().map(|c| c.0.clone() + "\n").collect();
    let _ = child.stdin.take().unwrap().write_all(text.as_bytes());
    let o = child.wait_with_output().map_err(|e| e.to_string())?;
    let ans: Vec<&str> = std::str::from_utf8(&o.stdout).map_err(|e| e.to_string())?.lines().collect();
    if ans.is_empty() && o.status.code() == Some(1) {
        // the module cannot be imported: nothing was tried
        drop(_gone);
        std::process::exit(2);
    }
    for (i, (c, ok)) in calls.iter().enumerate() {
        let Some(a) = ans.get(i) else { return Err(format!("{c}: the interpreter ended ({})", o.status)) };
        ensure!(!a.starts_with("{\"panic"), "{c}: {a}");
        if i >= at_extract && !ok { continue; }
        ensure!(a.starts_with("{\"ok") == *ok, "{c} gave {a}, expected {}", if *ok { "success" } else { "an error" });
    }
    for (i, all) in &asked {
        // the callback is asked about every file once
        let want: BTreeSet<String> = all.iter().map(|p| q(p)).collect();
        let l = ans[*i].trim_start_matches("{\"ok\": [").trim_end_matches("]}");
        let got: Vec<String> = if l.is_empty() { vec![] } else { l.split(", ").map(|x| x.to_string()).collect() };
        ensure!(got.len() == want.len() && got.iter().all(|g| want.contains(g)), "{}: asked about {got:?}, the files are {want:?}", calls[*i].0);
    }
    for (i, at) in &hashed {
        let s = &secs[order[*at]];
        let want: String = <sha1::Sha1 as sha1::Digest>::digest(&s.pay[s.dol.0..][..s.dol.1]).iter().map(|b| format!("{b:02x}")).collect();
        ensure!(ans[*i] == format!("{{\"ok\": \"{want}\"}}"), "{}: {}, the executable's SHA-1 is {want}", calls[*i].0, ans[*i]);
    }
    let mut got = BTreeMap::new();
    if !picked.is_empty() {
        listing(&out, "", &mut got)?;
    } else {
        ensure!(!out.exists() || fs::read_dir(&out).map(|d| d.count() == 0).unwrap_or(false), "files written with no section prepared");
    }
    let mut want: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    for (ty, at) in &picked {
        let s = &secs[order[*at]];
        let mut put = |p: &str, b: &[u8]| { want.insert(format!("{}/{p}", names[*ty as usize]), b.to_vec()); };
        put("disc/header.bin", &img.header);
        put("disc/region.bin", &img.region);
        put("cert.bin", &img.certs[*at]);
        put("tmd.bin", &img.tmd[*at]);
        put("ticket.bin", &img.tickets[*at]);
        put("sys/boot.bin", &s.head);
        put("sys/bi2.bin", &s.pay[0x440..0x2440]);
        put("sys/apploader.img", &s.pay[0x2440..][..s.app]);
        put("sys/main.dol", &s.pay[s.dol.0..][..s.dol.1]);
        put("sys/fst.bin", &s.pay[s.fst.0..][..s.fst.1]);
        let mut f = Vec::new();
        walk(&s.tree, "", &mut f);
        for (p, n) in f {
            if let Tree::F { off, len, .. } = n {
                if left[ty].contains(&p) {
                    put(&format!("files/{p}"), &s.pay[*off as usize..][..*len as usize]);
                }
            }
        }
    }
    for (p, b) in &want {
        let Some(g) = got.get(p) else { return Err(format!("{p} was not written")) };
        ensure!(g == b, "{p}: {} bytes written, {} expected, or different ones", g.len(), b.len());
    }
    for p in got.keys() {
        ensure!(want.contains_key(p), "{p} was written and is not asked for");
    }
    if again {
        let mut got2 = BTreeMap::new();
        listing(&out2, "", &mut got2)?;
        for (p, b) in want.iter().filter(|(p, _)| p.starts_with("DATA/files/")) {
            let Some(g) = got2.get(p) else { return Err(format!("{p} is not in the rebuilt image")) };
            ensure!(g == b, "{p} in the rebuilt image: {} bytes, {} expected, or different ones", g.len(), b.len());
        }
        for p in got2.keys().filter(|p| p.contains("/files/")) {
            ensure!(want.contains_key(p), "{p} is in the rebuilt image and was not in the directory");
        }
    }
    Ok(())
}
