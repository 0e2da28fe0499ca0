//! C01 partition reads, C08 windows, C14 system files.
use crate::oracle::*;
use crate::{ensure, step, R};
use disc_riider::{IOWindow, WiiIsoReader};
use std::cell::Cell;
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};
use std::rc::Rc;

/// A byte stream with injectable faults and short transfers.
pub struct Src {
    pub c: Cursor<Vec<u8>>,
    pub fail_in: Rc<Cell<i64>>, // <0: never; 0: the next operation fails
    pub failed: Rc<Cell<bool>>,
    pub short: Rc<Cell<u64>>, // 0: full transfers, else at most this many bytes per call
}
impl Src {
    pub fn new(v: Vec<u8>) -> Self {
        Src { c: Cursor::new(v), fail_in: Rc::new(Cell::new(-1)), failed: Rc::new(Cell::new(false)), short: Rc::new(Cell::new(0)) }
    }
    fn tick(&self) -> io::Result<()> {
        let f = self.fail_in.get();
        if f == 0 {
            self.fail_in.set(-1);
            self.failed.set(true);
            return Err(io::Error::new(io::ErrorKind::Other, "injected"));
        }
        if f > 0 {
            self.fail_in.set(f - 1);
        }
        Ok(())
    }
    fn cap(&self, n: usize) -> usize {
        let s = self.short.get() as usize;
        if s == 0 { n } else { n.min(s) }
    }
}
impl Read for Src {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.tick()?;
        let n = self.cap(b.len());
        self.c.read(&mut b[..n])
    }
}
impl Write for Src {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.tick()?;
        if b.is_empty() {
            return Ok(0); // a Cursor would zero-fill up to its position
        }
        let n = self.cap(b.len());
        self.c.write(&b[..n])
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for Src {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.tick()?;
        self.c.seek(p)
    }
}

fn edgy(r: &mut Rng, max: u64) -> u64 {
    // positions near block and group edges, or anywhere
    let k = r.below(10);
    let v = match k {
        0..=2 => r.below(max + 1),
        3..=5 => {
            let b = r.below(max / PAY as u64 + 1) * PAY as u64;
            (b + r.below(5)).saturating_sub(2)
        }
        6..=7 => {
            let b = r.below(max / GPAY as u64 + 2) * GPAY as u64;
            (b + r.below(5)).saturating_sub(2)
        }
        8 => (max + r.below(5)).saturating_sub(2),
        _ => r.below(0x900),
    };
    v
}

pub fn c01(r: &mut Rng, _case: u64) -> R {
    let groups = 1 + r.below(3) as usize;
    let mut pay = r.bytes(groups * GPAY);
    // some structure so that shifted data is never accidentally equal: it is random already
    let tree = vec![Tree::F { name: "a".into(), off: 0x8000, len: 4 }];
    let fb = fst_bytes(&tree);
    let fst_off = match r.below(3) {
        0 => 0x3000,
        1 => PAY as u64 * (1 + r.below(60)) - 8,
        _ => (GPAY as u64 * groups as u64 - 0x100) & !3,
    };
    let h = header_bytes("t", 0x2500, fst_off, fb.len() as u64, r);
    pay[..0x440].copy_from_slice(&h);
    pay[fst_off as usize..][..fb.len()].copy_from_slice(&fb);
    let whole = pay.len() as u64;
    let data_size = match r.below(4) {
        0 | 1 => whole,
        2 => whole - PAY as u64 * r.below(30),
        _ => whole - 4 * r.below(0x3000),
    };
    let key = r.arr();
    let key_idx = r.below(2) as u8;
    let part = Part { ptype: 0, table: r.below(4) as usize, key, key_idx, payload: pay.clone(), data_size, hash: false };
    let img = make_image(&[part], r);
    step!("partition of {} groups, data size {:#x}, key index {}", groups, data_size, key_idx);
    // the header and table must be readable for the partition to open
    if fst_off + 0x20 > data_size {
        return Ok(());
    }
    let src = Src::new(img.bytes);
    let (fail, failed, short) = (src.fail_in.clone(), src.failed.clone(), src.short.clone());
    if r.chance(1, 3) {
        short.set(1 + r.below(0x9000));
    }
    let mut rd = WiiIsoReader::open(src).map_err(|e| format!("open: {e:?}"))?;
    let entry = rd.partitions().get(0).cloned().ok_or("no partition listed")?;
    let mut p = rd.open_partition(entry).map_err(|e| format!("open_partition: {e:?}"))?;
    let mut cr = p.get_crypto_reader(&mut rd);
    let mut pos = 0u64;
    cr.seek(SeekFrom::Start(0)).map_err(|e| e.to_string())?;
    let mut vecbuf = Vec::new();
    for _ in 0..(10 + r.below(40)) {
        failed.set(false);
        if r.chance(1, 8) {
            fail.set(r.below(4) as i64);
        } else {
            fail.set(-1);
        }
        match r.below(7) {
            0 => {
                let t = edgy(r, data_size + 10);
                step!("seek Start({t:#x})");
                let g = cr.seek(SeekFrom::Start(t)).map_err(|e| format!("seek failed: {e}"))?;
                ensure!(g == t, "seek(Start({t})) reported {g}");
                pos = t;
            }
            1 => {
                let t = edgy(r, data_size + 10);
                let d = t as i64 - pos as i64;
                let d = if r.chance(1, 6) { d - t as i64 - r.below(9) as i64 } else { d };
                let want = (pos as i64 + d).max(0) as u64;
                step!("seek Current({d:#x})");
                let g = cr.seek(SeekFrom::Current(d)).map_err(|e| format!("seek failed: {e}"))?;
                ensure!(g == want, "seek(Current({d})) from {pos:#x} reported {g:#x}");
                pos = want;
            }
            2 | 3 => {
                let off = edgy(r, data_size + 10);
                let len = if r.chance(1, 2) { r.below(0x100) } else { edgy(r, 2 * GPAY as u64) };
                step!("read_into_vec({off:#x}, {len:#x}) fault={}", fail.get());
                vecbuf = if r.chance(1, 2) { r.bytes(10) } else { vecbuf };
                match cr.read_into_vec(off, len, &mut vecbuf) {
                    Ok(()) => {
                        let lim = len.min(data_size.saturating_sub(off));
                        ensure!(vecbuf.len() as u64 >= lim, "bulk read of {len:#x} at {off:#x} delivered {:#x}, expected at least {lim:#x}", vecbuf.len());
                        ensure!(vecbuf.len() as u64 <= len, "bulk read delivered more than asked: {:#x} > {len:#x}", vecbuf.len());
                        ensure!(off < data_size || vecbuf.is_empty(), "bulk read past the end delivered {:#x} bytes", vecbuf.len());
                        let o = off as usize;
                        ensure!(vecbuf.is_empty() || (o + vecbuf.len() <= pay.len() && vecbuf[..] == pay[o..o + vecbuf.len()]), "bulk read of {len:#x} bytes at {off:#x} delivered wrong data (first difference at +{:#x})", vecbuf.iter().zip(&pay[o.min(pay.len())..]).position(|(a, b)| a != b).unwrap_or(0));
                    }
                    Err(e) => ensure!(failed.get(), "bulk read failed without an I/O fault: {e}"),
                }
                let g = cr.stream_position().map_err(|e| e.to_string())?;
                ensure!(g == pos, "bulk read moved the position from {pos:#x} to {g:#x}");
            }
            _ => {
                let n = match r.below(4) {
                    0 => r.below(4),
                    1 => edgy(r, 2 * GPAY as u64),
                    2 => (PAY as u64 + r.below(5)).saturating_sub(2),
                    _ => r.below(0x2000),
                } as usize;
                let mut b = vec![0xA5u8; n];
                step!("read {n:#x} bytes at {pos:#x} fault={}", fail.get());
                match cr.read(&mut b) {
                    Ok(k) => {
                        ensure!(k <= n, "read returned {k} > {n}");
                        if pos >= data_size {
                            ensure!(k == 0, "read past the end delivered {k} bytes");
                        } else {
                            ensure!(n == 0 || k > 0, "read inside the partition delivered nothing");
                        }
                        let o = pos as usize;
                        ensure!(k == 0 || (o + k <= pay.len() && b[..k] == pay[o..o + k]), "read of {k:#x} bytes at {pos:#x} delivered wrong data (first difference at +{:#x})", b.iter().zip(&pay[o.min(pay.len())..]).position(|(a, b)| a != b).unwrap_or(0));
                        pos += k as u64;
                    }
                    Err(e) => ensure!(failed.get(), "read failed without an I/O fault: {e}"),
                }
                let g = cr.stream_position().map_err(|e| e.to_string())?;
                ensure!(g == pos, "after the read the position is {g:#x}, expected {pos:#x}");
            }
        }
    }
    Ok(())
}

pub fn c08(r: &mut Rng, case: u64) -> R {
    let slen = r.below(60) as usize;
    let mut model = r.bytes(slen);
    let start = r.below(30);
    let len = if r.chance(2, 3) { Some(r.below(30)) } else { None };
    let mut src = Src::new(model.clone());
    let (fail, failed, short) = (src.fail_in.clone(), src.failed.clone(), src.short.clone());
    src.c.set_position(r.below(70));
    step!("window start={start} length={len:?} over {slen} bytes, source left at {}", src.c.position());
    let mut w = IOWindow::new(&mut src, start, len);
    let mut pos = 0u64;
    for _ in 0..(4 + r.below(30)) {
        failed.set(false);
        fail.set(if r.chance(1, 8) { r.below(3) as i64 } else { -1 });
        short.set(if r.chance(1, 4) { 1 + r.below(5) } else { 0 });
        let left = len.map(|l| l.saturating_sub(pos));
        let base = start.saturating_add(pos) as usize;
        match r.below(9) {
            0 | 1 => {
                let n = r.below(20) as usize;
                let mut b = vec![0xA5u8; n];
                step!("read({n}) at {pos} short={} fault={}", short.get(), fail.get());
                match w.read(&mut b) {
                    Ok(k) => {
                        let avail = (model.len().saturating_sub(base) as u64).min(left.unwrap_or(u64::MAX)).min(n as u64) as usize;
                        ensure!(k <= avail, "read({n}) at {pos} delivered {k} bytes, only {avail} are in the window");
                        ensure!(k > 0 || avail == 0, "read({n}) at {pos} delivered nothing, {avail} available");
                        ensure!(k == 0 || b[..k] == model[base..base + k], "read({n}) at {pos} delivered wrong bytes");
                        ensure!(b[k..].iter().all(|x| *x == 0xA5), "read({n}) wrote past the bytes it reported");
                        pos += k as u64;
                    }
                    Err(e) => ensure!(failed.get(), "read failed without a fault: {e}"),
                }
            }
            2 | 3 => {
                let n = r.below(16) as usize;
                let mut b = vec![0xA5u8; n];
                step!("read_exact({n}) at {pos} short={} fault={}", short.get(), fail.get());
                let enough = left.map_or(true, |l| l >= n as u64) && (n == 0 || base.saturating_add(n) <= model.len());
                match w.read_exact(&mut b) {
                    Ok(()) => {
                        ensure!(enough, "read_exact({n}) at {pos} succeeded beyond the window or the stream");
                        ensure!(b[..] == model[base.min(model.len())..][..n], "read_exact({n}) at {pos} delivered wrong bytes");
                        pos += n as u64;
                    }
                    Err(e) => ensure!(failed.get() || !enough, "read_exact({n}) at {pos} failed although enough bytes are left: {e}"),
                }
            }
            4 | 5 => {
                let n = r.below(16) as usize;
                let data = r.bytes(n);
                if base.saturating_add(n) > 4096 {
                    continue; // do not grow the source without bound
                }
                step!("write({n}) at {pos} short={} fault={}", short.get(), fail.get());
                match w.write(&data) {
                    Ok(k) => {
                        let lim = (n as u64).min(left.unwrap_or(u64::MAX)) as usize;
                        ensure!(k <= lim, "write({n}) at {pos} reported {k}, the window has room for {lim}");
                        ensure!(k > 0 || lim == 0, "write({n}) at {pos} wrote nothing, room for {lim}");
                        if k > 0 {
                            if model.len() < base + k {
                                model.resize(base + k, 0);
                            }
                            model[base..base + k].copy_from_slice(&data[..k]);
                        }
                        pos += k as u64;
                    }
                    Err(e) => ensure!(failed.get(), "write failed without a fault: {e}"),
                }
            }
            _ => {
                let big = r.chance(1, 10);
                let (sf, want) = match r.below(3) {
                    0 => {
                        let o = if big { u64::MAX - r.below(40) } else { r.below(50) };
                        (SeekFrom::Start(o), Some(start.saturating_add(o) - start))
                    }
                    1 => {
                        let o = if big && pos < 1 << 40 { *r.pick(&[i64::MIN, i64::MAX]) } else { r.below(60) as i64 - 30 };
                        let np = (pos as i128 + o as i128).max(0) as u128;
                        let np = (np + start as u128).min(u64::MAX as u128) as u64 - start;
                        (SeekFrom::Current(o), Some(np))
                    }
                    _ => {
                        let o = if big { *r.pick(&[i64::MIN, i64::MAX]) } else { r.below(60) as i64 - 40 };
                        (SeekFrom::End(o), len.map(|l| {
                            let np = (l as i128 + o as i128).max(0) as u128;
                            (np + start as u128).min(u64::MAX as u128) as u64 - start
                        }))
                    }
                };
                step!("seek({sf:?}) at {pos} fault={}", fail.get());
                match (w.seek(sf), want) {
                    (Ok(g), Some(e)) => {
                        ensure!(g == e, "seek({sf:?}) from {pos} reported {g}, expected {e}");
                        pos = e;
                    }
                    (Ok(g), None) => return Err(format!("seek({sf:?}) without a length succeeded: {g}")),
                    (Err(e), Some(_)) => ensure!(failed.get(), "seek({sf:?}) from {pos} failed without a fault: {e}"),
                    (Err(_), None) => {}
                }
            }
        }
        fail.set(-1);
        let g = w.stream_position().map_err(|e| e.to_string())?;
        ensure!(g == pos, "window position is {g}, expected {pos}");
    }
    drop(w);
    let now = src.c.get_ref();
    // everything not written through the window is untouched
    ensure!(now.len() >= model.len() && now[..model.len()] == model[..], "bytes outside the written ranges changed");
    ensure!(now[model.len()..].iter().all(|b| *b == 0), "bytes were written past the end");
    // every fourth case: the same through a partition, windows over a partition reader
    if case % 64 == 3 {
        return c08_files(r);
    }
    Ok(())
}

fn c08_files(r: &mut Rng) -> R {
    let mut pay = r.bytes(GPAY);
    let mut tree = Vec::new();
    let mut off = 0x10000u64;
    let mut files = Vec::new();
    for i in 0..4 {
        let len = r.below(3 * PAY as u64);
        tree.push(Tree::F { name: format!("f{i}"), off, len: len as u32 });
        files.push((off, len));
        off = (off + len + 0x3F) & !0x3F;
    }
    let fb = fst_bytes(&tree);
    let h = header_bytes("t", 0x2500, 0x4000, fb.len() as u64, r);
    pay[..0x440].copy_from_slice(&h);
    pay[0x4000..][..fb.len()].copy_from_slice(&fb);
    let part = Part { ptype: 0, table: 0, key: r.arr(), key_idx: 0, payload: pay.clone(), data_size: GPAY as u64, hash: false };
    let img = make_image(&[part], r);
    let mut rd = WiiIsoReader::open(Cursor::new(img.bytes)).map_err(|e| format!("{e:?}"))?;
    let e = rd.partitions()[0].clone();
    let mut p = rd.open_partition(e).map_err(|e| format!("{e:?}"))?;
    for (i, (off, len)) in files.iter().enumerate() {
        let mut w = p.open_file(&mut rd, &format!("/f{i}")).ok_or("file not found")?;
        let want = &pay[*off as usize..][..*len as usize];
        step!("open_file f{i} of {len:#x} bytes at {off:#x}");
        if *len >= 8 {
            let k = r.below(len / 2) as usize;
            let g = w.seek(SeekFrom::Current(k as i64)).map_err(|e| e.to_string())?;
            ensure!(g == k as u64, "relative seek in a fresh file reported {g}, expected {k}");
            let mut b = vec![0; 4];
            w.read_exact(&mut b).map_err(|e| format!("read_exact of 4 bytes at {k} of a {len}-byte file failed: {e}"))?;
            ensure!(b == want[k..k + 4], "read_exact at {k} delivered wrong data");
            w.seek(SeekFrom::End(-2)).map_err(|e| e.to_string())?;
            let mut b = vec![0; 8];
            ensure!(w.read_exact(&mut b).is_err(), "read_exact past the end of a file succeeded");
            w.seek(SeekFrom::Start(0)).map_err(|e| e.to_string())?;
        }
        let mut all = Vec::new();
        w.read_to_end(&mut all).map_err(|e| e.to_string())?;
        ensure!(all == want, "file f{i}: read_to_end delivered {} bytes, expected {} (or different data)", all.len(), want.len());
    }
    ensure!(p.open_file(&mut rd, "nope").is_none(), "open_file of a missing file succeeded");
    Ok(())
}

pub fn c14(r: &mut Rng, case: u64) -> R {
    let groups = 2usize;
    let mut pay = r.bytes(groups * GPAY);
    let total = pay.len() as u64;
    // apploader
    let (s1, s2) = match r.below(6) {
        0 => (r.below(0x3000) as u32, r.below(0x800) as u32),
        // past the end of the first group, or just up to it
        4 => (0x1E0000 + r.below(0x40000) as u32, r.below(0x20000) as u32),
        5 => (r.below(0x1000) as u32, (0x1F0000 - 0x2440 - 0x1000 - 0x40) as u32 + r.below(0x1000) as u32),
        1 => (0, 0),
        2 => (r.below(0x20000) as u32, r.below(0x20000) as u32),
        _ => (r.below(64) as u32, r.below(64) as u32),
    };
    put32(&mut pay, 0x2440 + 0x14, s1);
    put32(&mut pay, 0x2440 + 0x18, s2);
    let app_len = 0x20 + s1 as u64 + s2 as u64;
    let dol_off = ((0x2440 + app_len + 0x1F) & !0x1F) + 0x20 * r.below(4);
    // dol: sections contiguous, with gaps, out of order, or absent
    let room = (total - 0x4000 - dol_off - 0x100) as u32;
    let style = r.below(4);
    let mut end = 0x100u32;
    let mut cur = 0x100u32;
    let mut secs: Vec<(u32, u32)> = Vec::new();
    for i in 0..18 {
        let used = i == 0 || r.chance(1, 2);
        let size = if used { (r.below(room as u64 / 40) as u32) & !0x1F } else { 0 };
        if style == 1 {
            cur += 0x20 * r.below(6) as u32; // gap
        }
        let off = if size == 0 && i != 0 { 0 } else { cur };
        secs.push((off, size));
        cur += size;
        if size > 0 {
            end = end.max(off + size);
        }
    }
    if style == 2 {
        // out of order on disc: permute
        for i in (1..18).rev() {
            let j = r.below(i as u64 + 1) as usize;
            secs.swap(i, j);
        }
    }
    let overflow = style == 3 && r.chance(1, 2);
    if overflow {
        secs[r.below(18) as usize] = (0x8000_0000 + r.next() as u32 / 4, 0xF000_0000);
    }
    for (i, (o, s)) in secs.iter().enumerate() {
        put32(&mut pay, dol_off as usize + 4 * i, *o);
        put32(&mut pay, dol_off as usize + 0x90 + 4 * i, *s);
    }
    let tree = vec![Tree::F { name: "x".into(), off: 0x100, len: 3 }];
    let fb = fst_bytes(&tree);
    let fst_off = total - 0x2000;
    let fst_sz = ((fb.len() as u64 + 3) & !3) + 4 * r.below(20);
    let h = header_bytes("sys", dol_off, fst_off, fst_sz, r);
    pay[..0x440].copy_from_slice(&h);
    pay[fst_off as usize..][..fb.len()].copy_from_slice(&fb);
    let part = Part { ptype: 0, table: 0, key: r.arr(), key_idx: 0, payload: pay.clone(), data_size: total, hash: false };
    let img = make_image(&[part], r);
    step!("apploader sizes {s1:#x}+{s2:#x}, dol at {dol_off:#x} sections {secs:x?}");
    let mut rd = WiiIsoReader::open(Cursor::new(img.bytes)).map_err(|e| format!("{e:?}"))?;
    let e = rd.partitions()[0].clone();
    let mut p = rd.open_partition(e).map_err(|e| format!("{e:?}"))?;
    if r.chance(1, 2) {
        // leave the reader somewhere else
        let mut c = p.get_crypto_reader(&mut rd);
        let _ = c.seek(SeekFrom::Start(r.below(total)));
        let _ = c.read(&mut [0; 7]);
    }
    step!("read_bi2, read_apploader, read_dol");
    let bi2 = p.read_bi2(&mut rd).map_err(|e| format!("read_bi2: {e:?}"))?;
    ensure!(bi2[..] == pay[0x440..0x2440], "bi2: {} bytes, wrong length or data", bi2.len());
    let app = p.read_apploader(&mut rd).map_err(|e| format!("read_apploader: {e:?}"))?;
    ensure!(app.len() as u64 == app_len, "apploader has {:#x} bytes, its header says {app_len:#x}", app.len());
    ensure!(app[..] == pay[0x2440..][..app.len()], "apploader: wrong data");
    let d = p.read_dol(&mut rd);
    if overflow {
        ensure!(d.is_err(), "executable with sections past 4 GiB did not give an error");
    } else {
        let d = d.map_err(|e| format!("read_dol: {e:?}"))?;
        ensure!(d.len() as u64 >= end as u64, "executable truncated: {:#x} bytes read, sections end at {end:#x}", d.len());
        ensure!(d[..] == pay[dol_off as usize..][..d.len()], "executable: wrong data");
        if style == 0 {
            ensure!(d.len() as u64 == end as u64, "executable has {:#x} bytes, its contiguous sections end at {end:#x}", d.len());
        }
        if case % 8 == 0 {
            let dir = crate::dirs::scratch();
            let res = (|| -> R {
                p.extract_system_files(&dir, &mut rd).map_err(|e| format!("extract_system_files: {e:?}"))?;
                let g = |n: &str| std::fs::read(dir.join("sys").join(n)).map_err(|e| format!("{n}: {e}"));
                ensure!(g("bi2.bin")? == bi2, "bi2.bin differs");
                ensure!(g("apploader.img")? == app, "apploader.img differs");
                ensure!(g("main.dol")? == d, "main.dol differs");
                ensure!(g("boot.bin")? == h, "boot.bin differs from the partition's header");
                ensure!(g("fst.bin")?[..] == pay[fst_off as usize..][..fst_sz as usize], "fst.bin differs from the table on disc");
                let mut names: Vec<String> = std::fs::read_dir(dir.join("sys")).unwrap().map(|e| e.unwrap().file_name().into_string().unwrap()).collect();
                names.sort();
                ensure!(names == ["apploader.img", "bi2.bin", "boot.bin", "fst.bin", "main.dol"], "files written: {names:?}");
                Ok(())
            })();
            let _ = std::fs::remove_dir_all(&dir);
            res?;
        }
    }
    Ok(())
}
