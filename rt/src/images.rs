//! C13: malformed images and extreme positions. A panic is caught by main and is the violation.
use crate::oracle::*;
use crate::{ensure, step, R};
use disc_riider::{Fst, FstNode, IOWindow, WiiIsoReader};
use std::io::{Cursor, Read, Seek, SeekFrom};

fn extreme_u(r: &mut Rng) -> u64 {
    *r.pick(&[0, 1, 0x7FFF_FFFF_FFFF_FFFF, 0x8000_0000_0000_0000, 0x8000_0000_0000_0001, u64::MAX, u64::MAX - 1, u64::MAX - 0x8000, 1 << 40])
}
fn extreme_i(r: &mut Rng) -> i64 {
    *r.pick(&[i64::MIN, i64::MIN + 1, i64::MAX, i64::MAX - 1, -1, 0, 1, -0x10000])
}
fn pound<S: Read + Seek>(s: &mut S, r: &mut Rng, what: &str) -> R {
    for _ in 0..6 {
        let p = match r.below(3) {
            0 => SeekFrom::Start(extreme_u(r)),
            1 => SeekFrom::Current(extreme_i(r)),
            _ => SeekFrom::End(extreme_i(r)),
        };
        step!("{what}: seek {p:?}");
        let res = s.seek(p);
        if let (Ok(g), SeekFrom::Start(t)) = (&res, p) {
            ensure!(*g == t || t > 1 << 41, "seek({p:?}) reported {g:#x}");
            ensure!(*g >= t.min(1 << 41), "seek({p:?}) went to {g:#x}");
        }
        let mut b = [0u8; 16];
        step!("{what}: read");
        let _ = s.read(&mut b);
        let _ = s.read_exact(&mut b);
    }
    Ok(())
}

fn table(r: &mut Rng) -> Vec<u8> {
    // entries with plausible and implausible values
    let n = 1 + r.below(8) as usize;
    let mut d = Vec::new();
    let count = match r.below(6) {
        0 => r.next() as u32,
        1 => u32::MAX,
        2 => 0,
        3 => n as u32 + r.below(3) as u32,
        _ => n as u32,
    };
    for i in 0..n {
        let dir = i == 0 || r.chance(1, 2);
        let noff = if r.chance(1, 6) { r.next() as u32 & 0xffffff } else { r.below(12) as u32 };
        let t = if dir { if r.chance(1, 10) { 0xff } else { 1 } } else { 0u32 };
        let a = match r.below(4) { 0 => r.next() as u32, 1 => i as u32, _ => 0 };
        let b = if i == 0 {
            count
        } else {
            match r.below(6) {
                0 => r.next() as u32,
                1 => 0,
                2 => i as u32,
                3 => n as u32 + 1,
                _ => (i + 1 + r.below((n - i) as u64 + 1) as usize) as u32,
            }
        };
        for w in [t << 24 | noff, if i == 0 && r.chance(9, 10) { 0 } else { a }, b] {
            d.extend_from_slice(&w.to_be_bytes());
        }
    }
    let m = r.below(40) as usize;
    let mut names = r.bytes(m);
    for b in names.iter_mut() {
        if *b > 0x7F && r.below(8) > 0 {
            *b &= 0x3F;
        }
    }
    names.push(0);
    d.extend_from_slice(&names);
    d
}

/// the directory ranges of a table that is accepted must be consistent
fn judge_table(d: &[u8], f: &Fst) -> R {
    let n = be32(d, 8) as usize;
    ensure!(n <= d.len() / 12, "a table claiming {n} entries in {} bytes was accepted", d.len());
    fn count(t: &[FstNode]) -> usize {
        t.iter().map(|n| 1 + match n { FstNode::Directory { files, .. } => count(files), _ => 0 }).sum()
    }
    ensure!(count(f.get_entries()) == n - 1, "a table of {n} entries was read as {} nodes", count(f.get_entries()));
    // nesting: every directory range within its parent's
    fn rec(d: &[u8], i: &mut usize, end: usize) -> R {
        while *i < end {
            let at = *i;
            *i += 1;
            if be32(d, at * 12) >> 24 != 0 {
                let e = be32(d, at * 12 + 8) as usize;
                ensure!(e >= *i && e <= end, "accepted although directory {at} ends at {e}, outside {}..={end}", *i);
                rec(d, i, e)?;
            }
        }
        Ok(())
    }
    rec(d, &mut 1, n)
}

fn use_all(img: Vec<u8>, r: &mut Rng, bad_key: bool) -> R {
    let len = img.len();
    let mut rd = match WiiIsoReader::open(Cursor::new(img)) {
        Ok(rd) => rd,
        Err(_) => return Ok(()),
    };
    let parts: Vec<_> = rd.partitions().iter().take(6).cloned().collect();
    for e in parts {
        let mut p = match rd.open_partition(e) {
            Ok(p) => p,
            Err(_) => continue,
        };
        ensure!(!bad_key, "a ticket naming an unknown common key was accepted");
        step!("partition opened");
        let _ = p.read_tmd(&mut rd);
        let _ = p.read_certificates(&mut rd);
        let _ = p.read_bi2(&mut rd);
        // a hostile size may ask for gigabytes: only where it is satisfiable in memory
        let mut hdr = [0u8; 0x20];
        {
            let mut c = p.get_crypto_reader(&mut rd);
            let _ = c.seek(SeekFrom::Start(0x2440));
            let _ = c.read_exact(&mut hdr);
        }
        step!("read_apploader, sizes {:#x} {:#x}", be32(&hdr, 0x14), be32(&hdr, 0x18));
        let _ = p.read_apploader(&mut rd);
        step!("read_dol");
        let _ = p.read_dol(&mut rd);
        let mut paths = Vec::new();
        let _ = p.get_fst().callback_all_files::<(), _>(&mut |pt, n| {
            if n.is_file() && paths.len() < 4 {
                paths.push(pt.join("/"));
            }
            Ok(())
        });
        for f in paths {
            step!("open_file {f:?}");
            if let Some(mut w) = p.open_file(&mut rd, &f) {
                let mut b = vec![0; 64];
                let _ = w.read(&mut b);
                pound(&mut w, r, "file")?;
            }
        }
        {
            let mut c = p.get_crypto_reader(&mut rd);
            pound(&mut c, r, "partition")?;
            let mut v = Vec::new();
            let o = extreme_u(r);
            step!("bulk read at {o:#x}");
            let _ = c.read_into_vec(o, r.below(0x1000), &mut v);
        }
        {
            let s = r.below(len as u64 * 2);
            let l = r.below(100);
            let mut w = p.open_window(&mut rd, s, Some(l));
            pound(&mut w, r, "window")?;
        }
    }
    Ok(())
}

pub fn c13(r: &mut Rng, case: u64) -> R {
    match case % 8 {
        0 | 1 | 2 | 3 => {
            for _ in 0..20 {
                let d = table(r);
                step!("table {d:02x?}");
                if let Ok(f) = Fst::read(&mut Cursor::new(&d), 0) {
                    judge_table(&d, &f)?;
                }
            }
            Ok(())
        }
        4 => {
            // windows over a cursor, extreme starts and lengths
            let start = extreme_u(r);
            let len = if r.chance(1, 2) { Some(extreme_u(r)) } else { None };
            let mut c = Cursor::new(r.bytes(64));
            step!("window start {start:#x} length {len:x?}");
            let mut w = IOWindow::new(&mut c, start, len);
            for _ in 0..8 {
                let p = match r.below(3) {
                    0 => SeekFrom::Start(extreme_u(r)),
                    1 => SeekFrom::Current(extreme_i(r)),
                    _ => SeekFrom::End(extreme_i(r)),
                };
                step!("seek {p:?}");
                let _ = w.seek(p);
                let mut b = [0u8; 16];
                step!("read");
                let _ = w.read(&mut b);
                let _ = w.read_exact(&mut b);
            }
            Ok(())
        }
        _ => {
            let mut pay = r.bytes(GPAY);
            // keep hostile sizes in memory limits most of the time
            put32(&mut pay, 0x2454, if r.chance(1, 4) { u32::MAX } else { r.below(0x1000) as u32 });
            put32(&mut pay, 0x2458, if r.chance(1, 4) { u32::MAX } else { r.below(0x1000) as u32 });
            let tb = if r.chance(1, 2) { table(r) } else { fst_bytes(&[Tree::F { name: "a".into(), off: 4 * r.below(0x200000), len: r.below(0x4000) as u32 }, Tree::F { name: "b".into(), off: (r.next() as u32) as u64 * 4, len: r.next() as u32 }]) };
            let dol = *r.pick(&[0x3000u64, 0, 0x1EFF80, 0x3_FFFF_FFFC]);
            let h = header_bytes("x", dol, if r.chance(1, 8) { 0x3_FFFF_FFFC } else { 0x4000 }, 0x100, r);
            pay[..0x440].copy_from_slice(&h);
            if r.chance(1, 2) {
                for i in 0..18 {
                    put32(&mut pay, 0x3000 + 4 * i, r.below(0x8000) as u32);
                    put32(&mut pay, 0x3090 + 4 * i, r.below(0x8000) as u32);
                }
            }
            pay[0x4000..][..tb.len()].copy_from_slice(&tb);
            let bad_key = r.chance(1, 3);
            let key_idx = if bad_key { *r.pick(&[2u8, 3, 255]) } else { 0 };
            let ds = *r.pick(&[GPAY as u64, GPAY as u64 * 3, 0, 0x3_FFFF_FFFC, 0x5000]);
            let part = Part { ptype: 0, table: 0, key: r.arr(), key_idx, payload: pay, data_size: ds, hash: false };
            let mut img = make_image(&[part], r).bytes;
            step!("image with key index {key_idx}, data size {ds:#x}, executable at {dol:#x}, table {tb:02x?}");
            let edits = r.below(4);
            for _ in 0..edits {
                let at = match r.below(5) {
                    0 => 0x40000 + r.below(0x30),
                    1 => 0x50000 + r.below(0x2C0),
                    2 => 0x502A4 + r.below(0x1C),
                    3 => 0x502C0 + r.below(0x800),
                    _ => r.below(img.len() as u64),
                } as usize;
                let v = *r.pick(&[0u8, 0xFF, 0x7F, 0x80, 1]);
                // a huge partition count over a huge file would only be slow, not wrong
                step!("byte {at:#x} := {v:#x}");
                img[at] = v;
            }
            if r.chance(1, 6) {
                let n = r.below(img.len() as u64) as usize;
                step!("truncated to {n:#x}");
                img.truncate(n);
            }
            use_all(img, r, bad_key && edits == 0)
        }
    }
}
