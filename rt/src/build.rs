//! C02, C03, C10, C11, C15: build images through the public builder and judge them with the
//! independent description of the format. C02 and C03 also drive the encrypting stream directly.
use crate::oracle::*;
use crate::{ensure, step, R};
use binrw::{BinReaderExt, BinWriterExt};
use disc_riider::builder::{PartitionAddError, WiiDiscBuilder, WiiPartitionDefinition};
use disc_riider::structs::{Certificate, DiscHeader, Ticket, WiiPartType, TMD};
use disc_riider::{Fst, FstNode};
use std::borrow::Cow;
use std::collections::HashMap;
use std::io::{Cursor, Seek, SeekFrom, Write};

#[derive(Debug)]
pub struct Stop;
impl std::fmt::Display for Stop {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "stop")
    }
}
impl std::error::Error for Stop {}

pub struct Def {
    pub ptype: u32,
    pub head: Vec<u8>,
    pub bi2: Vec<u8>,
    pub app: Vec<u8>,
    pub dol: Vec<u8>,
    pub tree: Vec<Tree>,
    pub files: HashMap<Vec<String>, (Vec<u8>, u32)>,
    pub asked: Vec<Vec<String>>,
    pub fail_at: Option<&'static str>,
    pub announce: bool,
    pub ticket: Vec<u8>,
    pub key: [u8; 16],
    pub tmd: Vec<u8>,
    pub certs: Vec<u8>,
}

pub fn to_fst(t: &[Tree]) -> Vec<FstNode> {
    t.iter()
        .map(|n| match n {
            Tree::F { name, off, len } => FstNode::File { name: name.clone(), offset: *off, length: *len },
            Tree::D { name, kids } => FstNode::Directory { name: name.clone(), files: to_fst(kids) },
        })
        .collect()
}
pub fn fst_of(t: &[Tree]) -> Fst {
    let mut f = Fst::new();
    *f.get_entries_mut() = to_fst(t);
    f
}

impl Def {
    fn stop(&self, at: &'static str) -> Result<(), PartitionAddError<Stop>> {
        if self.fail_at == Some(at) { Err(PartitionAddError::Custom(Stop)) } else { Ok(()) }
    }
}
impl WiiPartitionDefinition<Stop> for Def {
    fn get_disc_header(&mut self) -> Result<DiscHeader, PartitionAddError<Stop>> {
        self.stop("header")?;
        Ok(Cursor::new(&self.head).read_be()?)
    }
    fn get_bi2<'a>(&'a mut self) -> Result<Cow<'a, [u8]>, PartitionAddError<Stop>> {
        self.stop("bi2")?;
        Ok(Cow::Borrowed(&self.bi2))
    }
    fn get_apploader<'a>(&'a mut self) -> Result<Cow<'a, [u8]>, PartitionAddError<Stop>> {
        self.stop("app")?;
        Ok(Cow::Borrowed(&self.app))
    }
    fn get_fst(&mut self) -> Result<Fst, PartitionAddError<Stop>> {
        self.stop("fst")?;
        fn zero(t: &mut [FstNode], keep: bool) {
            for n in t {
                match n {
                    FstNode::File { offset, length, .. } => {
                        *offset = 0;
                        if !keep {
                            *length = 0
                        }
                    }
                    FstNode::Directory { files, .. } => zero(files, keep),
                }
            }
        }
        let mut f = fst_of(&self.tree);
        zero(f.get_entries_mut(), self.announce);
        Ok(f)
    }
    fn get_dol<'a>(&'a mut self) -> Result<Cow<'a, [u8]>, PartitionAddError<Stop>> {
        self.stop("dol")?;
        Ok(Cow::Borrowed(&self.dol))
    }
    fn get_file_data<'a>(&'a mut self, path: &Vec<String>) -> Result<(Cow<'a, [u8]>, u32), PartitionAddError<Stop>> {
        self.asked.push(path.clone());
        if self.asked.len() > 1 {
            self.stop("file")?;
        }
        match self.files.get(path) {
            Some((d, p)) => Ok((Cow::Borrowed(&d[..]), *p)),
            None => Err(PartitionAddError::Custom(Stop)),
        }
    }
}

fn al(n: u64, a: u64) -> u64 {
    (n + a - 1) / a * a
}

/// a length so that `pos + length` lands near a block or group edge
fn land(r: &mut Rng, pos: u64, maxg: u64) -> u64 {
    let d = *r.pick(&[0i64, 0, 1, -1, 3, 4, -4, 0x1F, 0x20, -0x20, 0x3F, 0x40, -0x3F, -0x40, -0x41, 0x41, 0x80]);
    let unit = if r.chance(1, 2) { GPAY as u64 } else { PAY as u64 };
    let lim = if unit == GPAY as u64 { maxg } else { 6 };
    let t = (pos / unit + 1 + r.below(lim)) * unit;
    ((t as i64 + d).max(pos as i64) as u64) - pos
}

pub fn def(r: &mut Rng, tag: u64) -> Def {
    let fast = tag % 3 != 0;
    let bi2 = { let n = *r.pick(&[0x2000usize, 0x2000, 0, 1, 0x1FFF, 0x440]); r.bytes(n) };
    let n = r.below(0x300) as usize;
    let mut app = r.bytes(0x20 + n);
    if r.chance(1, 10) {
        app.clear();
    }
    let mut pos = al(0x2440 + app.len() as u64, 0x20);
    let dl = match r.below(5) {
        0 => 0x100,
        1 => 0x100 + r.below(0x5000),
        2 => land(r, pos, 1),
        3 => land(r, pos, 1).saturating_sub(r.below(0x60)),
        _ => r.below(0x40),
    };
    let dol = r.bytes(dl as usize);
    pos = al(pos + dl, 0x20);
    // tree
    let mut names = 0u32;
    let mut files = HashMap::new();
    fn nm(r: &mut Rng, k: &mut u32) -> String {
        *k += 1;
        match r.below(4) {
            0 => format!("f{k}"),
            1 => format!("データ{k}"),
            2 => format!("A_long_name_{k}.bin"),
            _ => format!("{k}"),
        }
    }
    fn shape(r: &mut Rng, depth: u32, k: &mut u32) -> Vec<Tree> {
        let n = if depth == 0 { r.below(6) } else { r.below(4) };
        (0..n)
            .map(|_| {
                let name = nm(r, k);
                if depth < 3 && r.chance(1, 4) {
                    Tree::D { name, kids: shape(r, depth + 1, k) }
                } else {
                    Tree::F { name, off: 0, len: 0 }
                }
            })
            .collect()
    }
    let mut tree = shape(r, 0, &mut names);
    pos = al(pos + fst_bytes(&tree).len() as u64 + 4, 0x40);
    let cap = if fast { 3 * GPAY as u64 } else { 6 * GPAY as u64 };
    fn fill(r: &mut Rng, t: &mut [Tree], path: &mut Vec<String>, pos: &mut u64, cap: u64, files: &mut HashMap<Vec<String>, (Vec<u8>, u32)>) {
        for n in t {
            path.push(n.name().to_string());
            match n {
                Tree::D { kids, .. } => fill(r, kids, path, pos, cap, files),
                Tree::F { off, len, .. } => {
                    let l = match r.below(6) {
                        0 => 0,
                        1 => r.below(0x200),
                        2 => r.below(0x9000),
                        3 => GPAY as u64 + r.below(0x100),
                        _ => land(r, *pos, 1),
                    };
                    let l = if *pos + l > cap { r.below(0x100) } else { l };
                    let pad = match r.below(5) {
                        0 => r.below(0x100) as u32,
                        1 => r.below(0x9000) as u32,
                        2 => land(r, *pos + l, 1) as u32,
                        _ => 0,
                    };
                    let pad = if *pos + l + pad as u64 > cap { 0 } else { pad };
                    *len = l as u32;
                    *off = *pos;
                    *pos = al(*pos + l + pad as u64, 0x40);
                    files.insert(path.clone(), (r.bytes(l as usize), pad));
                }
            }
            path.pop();
        }
    }
    fill(r, &mut tree, &mut vec![], &mut pos, cap, &mut files);
    let key = r.arr();
    let idx = r.below(2) as u8;
    let tid = r.arr();
    let nc = 1 + r.below(4) as usize;
    Def {
        ptype: r.below(3) as u32,
        head: header_bytes("part", r.below(0x1000) * 4, 0x44, 0x100, r),
        bi2, app, dol, tree, files,
        asked: vec![],
        fail_at: None,
        announce: r.chance(1, 2),
        ticket: ticket_bytes(&key, idx, &tid, r),
        key,
        tmd: tmd_bytes(nc, r),
        certs: certs_bytes(r),
    }
}

fn ptype(n: u32) -> WiiPartType {
    match n {
        0 => WiiPartType::Data,
        1 => WiiPartType::Update,
        _ => WiiPartType::Channel,
    }
}

pub fn add<W: std::io::Read + Write + Seek>(b: &mut WiiDiscBuilder<W>, d: &mut Def) -> Result<(), String> {
    let e = |e: binrw::Error| format!("record: {e:?}");
    let ticket: Ticket = Cursor::new(&d.ticket).read_be().map_err(e)?;
    let tmd: TMD = Cursor::new(&d.tmd).read_be().map_err(e)?;
    let certs: [Certificate; 3] = Cursor::new(&d.certs).read_be().map_err(e)?;
    b.add_partition(ptype(d.ptype), ticket, tmd, certs, d, &mut |_| {}).map_err(|e| format!("add_partition: {e}"))
}

/// Judges one partition at `off` of `img`. Findings are tagged with the property they break.
/// Returns the end of the partition's extent.
pub fn inspect(img: &[u8], off: u64, d: &Def, out: &mut Vec<(&'static str, String)>) -> u64 {
    macro_rules! bad { ($t:expr, $($a:tt)*) => { out.push(($t, format!($($a)*))) } }
    let p = match img.get(off as usize..) {
        Some(p) if p.len() >= 0x20000 => p,
        _ => {
            bad!("C10", "no partition at the listed offset {off:#x}");
            return off;
        }
    };
    if p[..0x2A4] != d.ticket[..] {
        bad!("C10", "the partition header at the listed offset {off:#x} does not start with the ticket supplied");
    }
    let tmd_sz = be32(p, 0x2A4) as u64;
    let tmd_off = be32(p, 0x2A8) as u64 * 4;
    let cert_sz = be32(p, 0x2AC) as u64;
    let cert_off = be32(p, 0x2B0) as u64 * 4;
    let h3_off = be32(p, 0x2B4) as u64 * 4;
    let data_off = be32(p, 0x2B8) as u64 * 4;
    let data_size = be32(p, 0x2BC) as u64 * 4;
    let groups = data_size / GPAY as u64;
    if data_size % GPAY as u64 != 0 || data_size == 0 {
        bad!("C11", "data size {data_size:#x} is not a whole number of groups");
    }
    if tmd_sz != d.tmd.len() as u64 || cert_sz != d.certs.len() as u64 {
        bad!("C11", "recorded sizes: title metadata {tmd_sz} (is {}), certificates {cert_sz} (are {})", d.tmd.len(), d.certs.len());
    }
    let mut ext = vec![(0, 0x2C0, "partition header"), (tmd_off, tmd_off + tmd_sz, "title metadata"), (cert_off, cert_off + cert_sz, "certificates"), (h3_off, h3_off + 0x18000, "hash table"), (data_off, data_off + groups * GRP as u64, "data")];
    ext.sort();
    for w in ext.windows(2) {
        if w[0].1 > w[1].0 {
            bad!("C11", "{} {:#x}..{:#x} overlaps {} {:#x}..{:#x}", w[0].2, w[0].0, w[0].1, w[1].2, w[1].0, w[1].1);
        }
    }
    let end = off + ext.iter().map(|e| e.1).max().unwrap();
    if end > img.len() as u64 {
        bad!("C11", "the partition extends to {end:#x}, the image has {:#x} bytes", img.len());
        return end;
    }
    if p[cert_off as usize..][..cert_sz as usize] != d.certs[..(cert_sz as usize).min(d.certs.len())] {
        bad!("C11", "the certificates are not at the recorded place {cert_off:#x}");
    }
    // decrypt and check the hash tree
    let mut pay = Vec::new();
    let h3 = &p[h3_off as usize..][..0x18000];
    for g in 0..groups as usize {
        let raw = &p[data_off as usize + g * GRP..][..GRP];
        let (hd, pl) = dec_group(raw, &d.key);
        let (want, top) = hash_tree(&pl);
        for b in 0..64 {
            if hd[b] != want[b] {
                let at = hd[b].iter().zip(&want[b]).position(|(x, y)| x != y).unwrap();
                bad!("C03", "group {g} block {b}: decrypted hash header differs at {at:#x}");
                break;
            }
        }
        if h3[g * 20..][..20] != top {
            bad!("C03", "group {g}: entry of the global hash table is not the hash of the group's top table");
        }
        pay.extend_from_slice(&pl);
    }
    if h3[groups as usize * 20..].iter().any(|b| *b != 0) {
        bad!("C03", "the global hash table has entries for groups that do not exist (of {groups} groups)");
    }
    // inside
    let dol_off = pay.len().min(be32(&pay, 0x420) as usize * 4) as u64;
    let fst_off = be32(&pay, 0x424) as u64 * 4;
    let fst_sz = be32(&pay, 0x428) as u64 * 4;
    let mut h = pay[..0x440].to_vec();
    for o in [0x420, 0x424, 0x428, 0x42C] {
        h[o..o + 4].copy_from_slice(&d.head[o..o + 4]);
    }
    if h != d.head {
        let at = h.iter().zip(&d.head).position(|(x, y)| x != y).unwrap();
        bad!("C02", "the partition's header differs from the one supplied at {at:#x}");
    }
    if pay[0x428..0x42C] != pay[0x42C..0x430] {
        bad!("C11", "file table size and maximum size differ");
    }
    let mut regs: Vec<(u64, u64, String)> = vec![(0, 0x440, "header".into())];
    macro_rules! chk { ($o:expr, $d:expr, $w:expr) => { region(&pay, &mut regs, out, $o, $d, $w) } }
    chk!(0x440, &d.bi2, "boot data".into());
    chk!(0x2440, &d.app, "apploader".into());
    chk!(dol_off, &d.dol, "executable".into());
    if dol_off % 4 != 0 || fst_off % 4 != 0 {
        out.push(("C11", "unaligned executable or file table".into()));
    }
    if fst_off + fst_sz > pay.len() as u64 {
        out.push(("C11", format!("the file table {fst_off:#x}+{fst_sz:#x} lies outside the data")));
        return end;
    }
    match fst_parse(&pay[fst_off as usize..][..fst_sz as usize]) {
        Err(e) => {
            // either the table is wrong or its recorded size does not cover it
            let e2 = fst_parse(&pay[fst_off as usize..]);
            match e2 {
                Ok(_) => out.push(("C11", format!("the recorded file table size {fst_sz:#x} does not cover the table ({e})"))),
                Err(e2) => {
                    out.push(("C02", format!("file table unreadable: {e2}")));
                    out.push(("C11", format!("file table unreadable: {e2}")));
                }
            }
        }
        Ok((t, last)) => {
            chk!(fst_off, &pay[fst_off as usize..][..last], "file table".into());
            fn walk<'x>(t: &'x [Tree], path: &mut Vec<String>, dirs: &mut Vec<Vec<String>>, fs: &mut Vec<(Vec<String>, u64, u32)>) {
                for n in t {
                    path.push(n.name().into());
                    match n {
                        Tree::D { kids, .. } => {
                            dirs.push(path.clone());
                            walk(kids, path, dirs, fs)
                        }
                        Tree::F { off, len, .. } => fs.push((path.clone(), *off, *len)),
                    }
                    path.pop();
                }
            }
            let (mut d1, mut f1, mut d2, mut f2) = (vec![], vec![], vec![], vec![]);
            walk(&t, &mut vec![], &mut d1, &mut f1);
            walk(&d.tree, &mut vec![], &mut d2, &mut f2);
            let n1: Vec<_> = f1.iter().map(|f| &f.0).collect();
            let n2: Vec<_> = f2.iter().map(|f| &f.0).collect();
            if d1 != d2 || n1 != n2 {
                out.push(("C11", format!("the file table lists {n1:?}, supplied were {n2:?}")));
            } else {
                for (path, o, l) in &f1 {
                    let (data, pad) = &d.files[path];
                    if *l as usize != data.len() {
                        out.push(("C11", format!("{path:?}: recorded length {l:#x}, supplied {:#x} bytes", data.len())));
                    }
                    if o % 0x40 != 0 {
                        out.push(("C11", format!("{path:?}: offset {o:#x} is not a multiple of 0x40")));
                    }
                    chk!(*o, &data[..], format!("file {path:?}"));
                    let z = (o + data.len() as u64) as usize;
                    let ze = z + *pad as usize;
                    if ze > pay.len() || pay[z.min(pay.len())..ze].iter().any(|b| *b != 0) {
                        out.push(("C11", format!("{path:?}: not followed by {pad:#x} zero bytes of padding")));
                    }
                    regs.push((z as u64, ze as u64, format!("padding of {path:?}")));
                }
            }
        }
    }
    regs.retain(|r| r.0 < r.1);
    regs.sort();
    for w in regs.windows(2) {
        if w[0].1 > w[1].0 {
            bad!("C11", "{} {:#x}..{:#x} overlaps {} {:#x}..{:#x}", w[0].2, w[0].0, w[0].1, w[1].2, w[1].0, w[1].1);
        }
    }
    // title metadata
    let t = &p[tmd_off as usize..][..(tmd_sz as usize).min(p.len() - tmd_off as usize)];
    if t.len() != d.tmd.len() {
        bad!("C15", "title metadata of {} bytes, supplied {}", t.len(), d.tmd.len());
        return end;
    }
    if t[0x1F4..0x208] != sha(h3) {
        bad!("C15", "the first content's hash is not the SHA-1 of the global hash table written");
    }
    if t[0x1EC..0x1F4] != data_size.to_be_bytes() {
        bad!("C15", "the first content's size is {:x?}, the data size {data_size:#x}", &t[0x1EC..0x1F4]);
    }
    if t[4..0x104].iter().any(|b| *b != 0) {
        bad!("C15", "the signature bytes are not all zero");
    }
    if sha(&t[0x140..])[0] != 0 {
        bad!("C15", "the SHA-1 of the signed part does not start with zero");
    }
    let mut w = d.tmd.clone();
    w[0x1F4..0x208].copy_from_slice(&t[0x1F4..0x208]);
    w[0x1EC..0x1F4].copy_from_slice(&t[0x1EC..0x1F4]);
    w[4..0x104].copy_from_slice(&t[4..0x104]);
    w[0x19A..0x1A2].copy_from_slice(&t[0x19A..0x1A2]);
    if w[..] != t[..] {
        let at = w.iter().zip(t).position(|(x, y)| x != y).unwrap();
        bad!("C15", "title metadata differs from the one supplied at {at:#x}");
    }
    end
}

fn region(pay: &[u8], regs: &mut Vec<(u64, u64, String)>, out: &mut Vec<(&'static str, String)>, o: u64, data: &[u8], what: String) {
    let e = o + data.len() as u64;
    if e > pay.len() as u64 {
        out.push(("C11", format!("{what} {o:#x}..{e:#x} lies outside the data size {:#x}", pay.len())));
        return;
    }
    if pay[o as usize..e as usize] != *data {
        let at = pay[o as usize..].iter().zip(data).position(|(x, y)| x != y).unwrap();
        out.push(("C02", format!("{what}: byte {at:#x} of {:#x} (at {:#x}) was altered", data.len(), o + at as u64)));
        if what == "executable" || what.starts_with("file ") {
            out.push(("C11", format!("{what} is not at its recorded offset {o:#x}")));
        }
    }
    regs.push((o, e, what));
}

/// Judges a whole finished image.
pub fn inspect_disc(img: &[u8], header: &[u8], region: &[u8; 32], defs: &[&Def], out: &mut Vec<(&'static str, String)>) {
    macro_rules! bad { ($t:expr, $($a:tt)*) => { out.push(($t, format!($($a)*))) } }
    if img.len() < 0x50000 && !(defs.is_empty() && img.len() >= 0x4E020) {
        bad!("C10", "image of {:#x} bytes", img.len());
        return;
    }
    if img[..0x440] != header[..] {
        let at = img.iter().zip(header).position(|(x, y)| x != y).unwrap();
        bad!("C10", "the disc header differs from the one given at {at:#x}");
    }
    if img[0x4E000..0x4E020] != region[..] {
        bad!("C10", "the region block at 0x4E000 differs from the one given");
    }
    let mut listed = Vec::new();
    let mut meta = vec![(0u64, 0x440u64, "disc header".to_string()), (0x4E000, 0x4E020, "region".into()), (0x40000, 0x40020, "partition info".into())];
    for t in 0..4 {
        let n = be32(img, 0x40000 + 8 * t) as usize;
        let o = be32(img, 0x40004 + 8 * t) as usize * 4;
        if n > 1000 {
            bad!("C10", "table {t} claims {n} partitions");
            return;
        }
        if n > 0 {
            meta.push((o as u64, (o + 8 * n) as u64, format!("table {t}")));
        }
        for i in 0..n {
            listed.push((be32(img, o + 8 * i) as u64 * 4, be32(img, o + 8 * i + 4)));
        }
    }
    let types: Vec<u32> = listed.iter().map(|l| l.1).collect();
    let want: Vec<u32> = defs.iter().map(|d| d.ptype).collect();
    if types != want {
        bad!("C10", "partition types listed {types:?}, added {want:?}");
        return;
    }
    for (l, d) in listed.iter().zip(defs) {
        let end = inspect(img, l.0, d, out);
        meta.push((l.0, end, format!("partition at {:#x}", l.0)));
    }
    meta.sort();
    for w in meta.windows(2) {
        if w[0].1 > w[1].0 {
            bad!("C10", "{} {:#x}..{:#x} overlaps {} {:#x}..{:#x}", w[0].2, w[0].0, w[0].1, w[1].2, w[1].0, w[1].1);
        }
    }
}

fn describe(d: &Def) -> String {
    let mut fs: Vec<_> = d.files.iter().map(|(p, (b, pad))| format!("{}:{:#x}+pad{:#x}", p.join("/"), b.len(), pad)).collect();
    fs.sort();
    format!("bi2 {:#x}, apploader {:#x}, executable {:#x}, {} metadata contents, files [{}]", d.bi2.len(), d.app.len(), d.dol.len(), (d.tmd.len() - 0x1E4) / 36, fs.join(", "))
}

fn build_case(r: &mut Rng, case: u64, tag: &str) -> R {
    let nparts = match tag {
        "C10" => r.below(4),
        _ => 1 + r.chance(1, 5) as u64,
    };
    let header = header_bytes("a disc", 4 * r.below(100), 4 * r.below(100), 4 * r.below(100), r);
    let region: [u8; 32] = r.arr();
    let mut out = Vec::new();
    let mut img = Cursor::new(Vec::new());
    let dh: DiscHeader = Cursor::new(&header).read_be().map_err(|e| format!("{e:?}"))?;
    let mut good: Vec<Def> = Vec::new();
    {
        let mut b = WiiDiscBuilder::create(&mut img, dh, region);
        for i in 0..nparts {
            let mut d = def(r, case);
            if tag == "C10" && i > 0 && r.chance(1, 4) {
                d.fail_at = Some(*r.pick(&["header", "bi2", "app", "fst", "dol"]));
            }
            step!("add partition of type {}: {}{}", d.ptype, describe(&d), d.fail_at.map_or(String::new(), |f| format!(" (definition fails in {f})")));
            match (add(&mut b, &mut d), d.fail_at) {
                (Ok(()), None) => good.push(d),
                (Ok(()), Some(f)) => return Err(format!("add_partition succeeded although the definition failed in {f}")),
                (Err(e), None) => return Err(e),
                (Err(_), Some(_)) => {}
            }
        }
        step!("finish");
        b.finish().map_err(|e| format!("finish: {e:?}"))?;
    }
    let img = img.into_inner();
    let refs: Vec<&Def> = good.iter().collect();
    inspect_disc(&img, &header, &region, &refs, &mut out);
    if tag == "C10" && !good.is_empty() {
        // the crate's own reader lists the same
        let rd = disc_riider::WiiIsoReader::open(Cursor::new(&img)).map_err(|e| format!("open: {e:?}"))?;
        ensure!(rd.partitions().len() == good.len(), "reader lists {} partitions, {} were added", rd.partitions().len(), good.len());
        for (e, d) in rd.partitions().iter().zip(&good) {
            ensure!(e.get_type() == ptype(d.ptype), "reader lists type {:?} for type {}", e.get_type(), d.ptype);
        }
        let mut w = Cursor::new(Vec::new());
        w.write_be(rd.get_header()).map_err(|e| format!("{e:?}"))?;
        ensure!(w.into_inner() == header, "the reader's disc header differs from the one given");
        ensure!(*rd.get_region() == region, "the reader's region differs from the one given");
    }
    match out.into_iter().find(|o| o.0 == tag) {
        Some((_, m)) => Err(m),
        None => Ok(()),
    }
}

/// Drives the encrypting stream itself with arbitrary seeks and writes.
#[cfg(not(vp_hooks))]
fn stream_case(r: &mut Rng, tag: &str) -> R {
    build_case(r, 1, tag)
}
#[cfg(vp_hooks)]
fn stream_case(r: &mut Rng, tag: &str) -> R {
    use disc_riider::vp_hooks::WiiEncryptedReadWriteStream as W;
    let key: [u8; 16] = r.arr();
    let base = 0x20 * r.below(5);
    let mut file = Cursor::new(vec![0u8; base as usize]);
    let ng = 1 + r.below(4);
    let mut plain: Vec<u8> = vec![0; (ng + 1) as usize * GPAY];
    let mut known = vec![false; plain.len()];
    let mut wr = W::create_write(&mut file, base, key, None, 0);
    let mut pos = 0u64;
    let mut top = 0;
    for _ in 0..(2 + r.below(14)) {
        if r.chance(2, 3) {
            let t = {
                let g = r.below(ng) * GPAY as u64;
                match r.below(4) {
                    0 => g,
                    1 => g + r.below(64) * PAY as u64,
                    2 => (g + r.below(64) * PAY as u64 + r.below(8)).saturating_sub(4),
                    _ => g + r.below(GPAY as u64),
                }
            };
            if r.chance(1, 2) {
                step!("seek Start({t:#x})");
                wr.seek(SeekFrom::Start(t)).map_err(|e| e.to_string())?;
            } else {
                let d = t as i64 - pos as i64;
                step!("seek Current({d:#x})");
                wr.seek(SeekFrom::Current(d)).map_err(|e| e.to_string())?;
            }
            pos = t;
        }
        let room = ng * GPAY as u64 - pos;
        let n = match r.below(5) {
            0 => r.below(0x20),
            1 => land(r, pos, 1),
            2 => r.below(0x9000),
            3 => GPAY as u64 + r.below(3),
            _ => r.below(0x400),
        }
        .min(room);
        let data = r.bytes(n as usize);
        step!("write {n:#x} bytes at {pos:#x}");
        wr.write_all(&data).map_err(|e| format!("write: {e}"))?;
        plain[pos as usize..][..n as usize].copy_from_slice(&data);
        known[pos as usize..][..n as usize].fill(true);
        pos += n;
        if n > 0 {
            top = top.max((pos + GPAY as u64 - 1) / GPAY as u64);
        }
        let g = wr.stream_position().map_err(|e| e.to_string())?;
        ensure!(g == pos, "position after the write is {g:#x}, expected {pos:#x}");
    }
    wr.flush().map_err(|e| format!("flush: {e}"))?;
    let h3 = wr.take_h3().ok_or("no global hash table")?;
    drop(wr);
    let raw = file.into_inner();
    ensure!(raw[..base as usize].iter().all(|b| *b == 0), "bytes before the data area were changed");
    ensure!(raw.len() as u64 == base + top * GRP as u64 || top == 0, "file has {:#x} bytes, expected {:#x}", raw.len(), base + top * GRP as u64);
    for g in 0..top as usize {
        let any = known[g * GPAY..][..GPAY].iter().any(|k| *k);
        if !any {
            continue; // skipped over, never written
        }
        let (hd, pl) = dec_group(&raw[base as usize + g * GRP..][..GRP], &key);
        if tag == "C03" {
            let (want, t3) = hash_tree(&pl);
            for b in 0..64 {
                ensure!(hd[b] == want[b], "group {g} block {b}: hash header wrong at {:#x}", hd[b].iter().zip(&want[b]).position(|(x, y)| x != y).unwrap());
            }
            ensure!(h3[g * 20..][..20] == t3, "group {g}: wrong entry in the global table");
        } else {
            for i in 0..GPAY {
                ensure!(!known[g * GPAY + i] || pl[i] == plain[g * GPAY + i], "byte {:#x} was written as {:#x} and reads back as {:#x}", g * GPAY + i, plain[g * GPAY + i], pl[i]);
            }
        }
    }
    if tag == "C03" {
        ensure!(h3[top as usize * 20..].iter().all(|b| *b == 0), "entries in the global table for groups that do not exist");
    }
    Ok(())
}

pub fn c02(r: &mut Rng, case: u64) -> R {
    if case % 2 == 1 { stream_case(r, "C02") } else { build_case(r, case / 2, "C02") }
}
pub fn c03(r: &mut Rng, case: u64) -> R {
    if case % 2 == 1 { stream_case(r, "C03") } else { build_case(r, case / 2, "C03") }
}
pub fn c10(r: &mut Rng, case: u64) -> R {
    if case % 2 == 1 { listing(r) } else { build_case(r, case / 2, "C10") }
}
pub fn c11(r: &mut Rng, case: u64) -> R {
    build_case(r, case, "C11")
}
pub fn c15(r: &mut Rng, case: u64) -> R {
    if case % 6 == 5 {
        // title metadata without contents: an error, not a crash
        let mut d = def(r, 1);
        d.tmd = tmd_bytes(0, r);
        step!("title metadata with no contents");
        step!("{}", describe(&d));
        let header = header_bytes("a disc", 0, 0, 0, r);
        let dh: DiscHeader = Cursor::new(&header).read_be().map_err(|e| format!("{e:?}"))?;
        let mut img = Cursor::new(Vec::new());
        let mut b = WiiDiscBuilder::create(&mut img, dh, [0; 32]);
        ensure!(add(&mut b, &mut d).is_err(), "metadata with no content records was accepted");
        return Ok(());
    }
    build_case(r, case, "C15")
}

/// The values reported while a partition is built from a definition that announces the real lengths.
pub fn c17(r: &mut Rng, case: u64) -> R {
    let mut d = def(r, 1);
    d.announce = true;
    let many = r.below(8);
    if many < 6 {
        // files of its own, small ones mostly
        let n = *r.pick(&[0u64, 1, 1, 2, 3, 7, 20, 101, 257]);
        let big = case % 9 == 4;
        let huge = case % 97 == 50;
        let empty = r.chance(1, 6);
        d.tree.clear();
        d.files.clear();
        let mut kids: Vec<Tree> = vec![];
        let mut inside: Vec<String> = vec![];
        for k in 0..n {
            let l = if empty { 0 } else if huge && k == 0 { 3 * 0x100_0000 + r.below(0x1000) } else if big && k < 2 { *r.pick(&[0xFF_FFFFu64, 0x100_0000, 0x100_0001, 0x180_0000]) } else {
                match r.below(4) { 0 => 0, 1 => 1, 2 => r.below(300), _ => r.below(3000) }
            };
            let name = format!("n{k:03}");
            if r.chance(1, 8) {
                // close the directory gathered so far
                let dir = format!("d{k:03}");
                d.tree.push(Tree::D { name: dir.clone(), kids: std::mem::take(&mut kids) });
                for f in inside.drain(..) {
                    let v = d.files.remove(&vec![f.clone()]).unwrap();
                    d.files.insert(vec![dir.clone(), f], v);
                }
            }
            let pad = if r.chance(1, 5) { r.below(0x100) as u32 } else { 0 };
            d.files.insert(vec![name.clone()], (vec![k as u8; l as usize], pad));
            let f = Tree::F { name: name.clone(), off: 0, len: l as u32 };
            if r.chance(1, 2) {
                kids.push(f);
                inside.push(name);
            } else {
                d.tree.push(f);
            }
        }
        // what was gathered and not put in a directory stays at the top
        d.tree.append(&mut kids);
    }
    if r.chance(1, 8) {
        d.fail_at = Some(*r.pick(&["file", "file", "fst", "bi2", "dol"]));
    }
    let lens: Vec<(String, usize)> = { let mut v: Vec<_> = d.files.iter().map(|(k, v)| (k.join("/"), v.0.len())).collect(); v.sort(); v };
    step!("fails at {:?}", d.fail_at);
    step!("files {:x?}", lens);
    let header = header_bytes("a disc", 0, 0, 0, r);
    let dh: DiscHeader = Cursor::new(&header).read_be().map_err(|e| format!("{e:?}"))?;
    let mut img = Cursor::new(Vec::new());
    let mut b = WiiDiscBuilder::create(&mut img, dh, [0; 32]);
    let e = |e: binrw::Error| format!("record: {e:?}");
    let ticket: Ticket = Cursor::new(&d.ticket).read_be().map_err(e)?;
    let tmd: TMD = Cursor::new(&d.tmd).read_be().map_err(e)?;
    let certs: [Certificate; 3] = Cursor::new(&d.certs).read_be().map_err(e)?;
    let mut said: Vec<u8> = vec![];
    let ok = b.add_partition(ptype(d.ptype), ticket, tmd, certs, &mut d, &mut |x| said.push(x)).is_ok();
    ensure!(said.first() == Some(&0), "the first value reported is {:?}", said.first());
    ensure!(said.windows(2).all(|w| w[0] <= w[1]), "the progress goes down: {said:?}");
    ensure!(said.iter().all(|x| *x <= 100), "the progress exceeds 100: {said:?}");
    if ok && lens.iter().any(|l| l.1 > 0) {
        ensure!(said.last() == Some(&100), "the last value reported is {:?} although the partition is complete", said.last());
    }
    ensure!(ok || d.fail_at.is_some(), "the partition could not be built");
    Ok(())
}

/// Opening a hand-made disc lists every entry of all four tables, in order.
fn listing(r: &mut Rng) -> R {
    let mut img = vec![0u8; 0x4E020];
    let h = header_bytes("listing", 0, 0, 0, r);
    img[..0x440].copy_from_slice(&h);
    let region: [u8; 32] = r.arr();
    img[0x4E000..].copy_from_slice(&region);
    let mut want = Vec::new();
    let mut spots: Vec<usize> = (0..4).map(|i| 0x40020 + i * 0x400).collect();
    for i in (1..4).rev() {
        let j = r.below(i as u64 + 1) as usize;
        spots.swap(i, j);
    }
    for t in 0..4 {
        let n = if r.chance(1, 3) { 0 } else { r.below(6) };
        let at = spots[t] + 4 * r.below(10) as usize;
        put32(&mut img, 0x40000 + 8 * t, n as u32);
        put32(&mut img, 0x40004 + 8 * t, if n == 0 { r.next() as u32 } else { (at / 4) as u32 });
        for i in 0..n as usize {
            let o = (r.next() as u32) as u64;
            let ty = r.below(3) as u32;
            put32(&mut img, at + 8 * i, o as u32);
            put32(&mut img, at + 8 * i + 4, ty);
            want.push((o * 4, ty));
        }
        step!("table {t}: {n} entries at {at:#x}");
    }
    let rd = disc_riider::WiiIsoReader::open(Cursor::new(&img)).map_err(|e| format!("open: {e:?}"))?;
    let got: Vec<(u64, u32)> = rd.partitions().iter().map(|p| (p.get_offset(), p.get_type() as u32)).collect();
    ensure!(got == want, "partitions listed {got:x?}, the tables hold {want:x?}");
    ensure!(*rd.get_region() == region, "region differs");
    let mut w = Cursor::new(Vec::new());
    w.write_be(rd.get_header()).map_err(|e| format!("{e:?}"))?;
    ensure!(w.into_inner() == h, "disc header differs");
    Ok(())
}
