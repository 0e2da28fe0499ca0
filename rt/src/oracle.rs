//! Independent description of the on-disc format: everything here is written from the format, not
//! from disc-riider, and is used to make inputs and to judge outputs.
use aes::cipher::{block_padding::NoPadding, BlockDecryptMut, BlockEncryptMut, KeyIvInit};
use sha1::{Digest, Sha1};

pub const BLK: usize = 0x8000;
pub const HDR: usize = 0x400;
pub const PAY: usize = 0x7C00;
pub const GRP: usize = 0x200000;
pub const GPAY: usize = PAY * 64;
pub const KEYS: [[u8; 16]; 2] = [
    [0xeb, 0xe4, 0x2a, 0x22, 0x5e, 0x85, 0x93, 0xe4, 0x48, 0xd9, 0xc5, 0x45, 0x73, 0x81, 0xaa, 0xf7],
    [0x63, 0xb8, 0x2b, 0xb4, 0xf4, 0x61, 0x4e, 0x2e, 0x13, 0xf2, 0xfe, 0xfb, 0xba, 0x4c, 0x9b, 0x7e],
];

pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Self {
        let mut r = Rng(s ^ 0x9E3779B97F4A7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn arr<const N: usize>(&mut self) -> [u8; N] {
        self.bytes(N).try_into().unwrap()
    }
}

pub fn cbc_enc(key: &[u8; 16], iv: &[u8; 16], data: &mut [u8]) {
    let n = data.len();
    cbc::Encryptor::<aes::Aes128>::new(key.into(), iv.into())
        .encrypt_padded_mut::<NoPadding>(data, n)
        .unwrap();
}
pub fn cbc_dec(key: &[u8; 16], iv: &[u8; 16], data: &mut [u8]) {
    cbc::Decryptor::<aes::Aes128>::new(key.into(), iv.into())
        .decrypt_padded_mut::<NoPadding>(data)
        .unwrap();
}
pub fn sha(d: &[u8]) -> [u8; 20] {
    let mut h = Sha1::new();
    h.update(d);
    h.finalize().as_slice().try_into().unwrap()
}

/// The decrypted 64 headers a group with this payload must have, and its H3 entry.
pub fn hash_tree(pay: &[u8]) -> (Vec<[u8; HDR]>, [u8; 20]) {
    assert_eq!(pay.len(), GPAY);
    let mut h0 = Vec::new();
    for b in 0..64 {
        let mut t = Vec::new();
        for j in 0..31 {
            t.extend_from_slice(&sha(&pay[b * PAY + j * 0x400..][..0x400]));
        }
        h0.push(t);
    }
    let mut h1 = Vec::new();
    for s in 0..8 {
        let mut t = Vec::new();
        for c in 0..8 {
            t.extend_from_slice(&sha(&h0[s * 8 + c]));
        }
        h1.push(t);
    }
    let mut h2 = Vec::new();
    for s in 0..8 {
        h2.extend_from_slice(&sha(&h1[s]));
    }
    let h3 = sha(&h2);
    let mut out = Vec::new();
    for b in 0..64 {
        let mut h = [0u8; HDR];
        h[..620].copy_from_slice(&h0[b]);
        h[0x280..0x320].copy_from_slice(&h1[b / 8]);
        h[0x340..0x3E0].copy_from_slice(&h2);
        out.push(h);
    }
    (out, h3)
}

/// Encrypt a group in the console's way. `random_headers`: instead of a hash tree use these headers
/// (readers must not depend on the hashes).
pub fn enc_group(pay: &[u8], key: &[u8; 16], headers: Option<&[[u8; HDR]]>) -> (Vec<u8>, [u8; 20]) {
    let (hs, h3);
    let hdrs: &[[u8; HDR]] = match headers {
        Some(h) => {
            h3 = [0; 20];
            h
        }
        None => {
            (hs, h3) = hash_tree(pay);
            &hs
        }
    };
    let mut out = Vec::with_capacity(GRP);
    for b in 0..64 {
        let mut h = hdrs[b];
        cbc_enc(key, &[0; 16], &mut h);
        let iv: [u8; 16] = h[0x3D0..0x3E0].try_into().unwrap();
        let mut p = pay[b * PAY..][..PAY].to_vec();
        cbc_enc(key, &iv, &mut p);
        out.extend_from_slice(&h);
        out.extend_from_slice(&p);
    }
    (out, h3)
}

/// Decrypt one raw group: the 64 headers and the payload.
pub fn dec_group(raw: &[u8], key: &[u8; 16]) -> (Vec<[u8; HDR]>, Vec<u8>) {
    let mut hdrs = Vec::new();
    let mut pay = Vec::with_capacity(GPAY);
    for b in 0..64 {
        let blk = &raw[b * BLK..][..BLK];
        let iv: [u8; 16] = blk[0x3D0..0x3E0].try_into().unwrap();
        let mut h: [u8; HDR] = blk[..HDR].try_into().unwrap();
        cbc_dec(key, &[0; 16], &mut h);
        let mut p = blk[HDR..].to_vec();
        cbc_dec(key, &iv, &mut p);
        hdrs.push(h);
        pay.extend_from_slice(&p);
    }
    (hdrs, pay)
}

pub fn be32(d: &[u8], o: usize) -> u32 {
    u32::from_be_bytes(d[o..o + 4].try_into().unwrap())
}
pub fn put32(d: &mut [u8], o: usize, v: u32) {
    d[o..o + 4].copy_from_slice(&v.to_be_bytes());
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tree {
    F { name: String, off: u64, len: u32 },
    D { name: String, kids: Vec<Tree> },
}
impl Tree {
    pub fn name(&self) -> &str {
        match self {
            Tree::F { name, .. } | Tree::D { name, .. } => name,
        }
    }
}

pub fn sjis(s: &str) -> Vec<u8> {
    let (b, _, e) = encoding_rs::SHIFT_JIS.encode(s);
    assert!(!e);
    b.into_owned()
}

/// The exact bytes of the table for this tree.
pub fn fst_bytes(t: &[Tree]) -> Vec<u8> {
    fn rec(t: &[Tree], parent: u32, ents: &mut Vec<[u32; 3]>, names: &mut Vec<u8>) {
        for n in t {
            let no = names.len() as u32;
            names.extend_from_slice(&sjis(n.name()));
            names.push(0);
            let me = ents.len();
            match n {
                Tree::F { off, len, .. } => ents.push([no, (off / 4) as u32, *len]),
                Tree::D { kids, .. } => {
                    ents.push([1 << 24 | no, parent, 0]);
                    rec(kids, me as u32, ents, names);
                    ents[me][2] = ents.len() as u32;
                }
            }
        }
    }
    let mut ents = vec![[1 << 24, 0, 0]];
    let mut names = vec![0];
    rec(t, 0, &mut ents, &mut names);
    ents[0][2] = ents.len() as u32;
    let mut out = Vec::new();
    for e in ents {
        for w in e {
            out.extend_from_slice(&w.to_be_bytes());
        }
    }
    out.extend_from_slice(&names);
    out
}

/// Independent parser of a table (strict): returns the tree, and the end of the last name.
pub fn fst_parse(d: &[u8]) -> Result<(Vec<Tree>, usize), String> {
    if d.len() < 12 {
        return Err("short table".into());
    }
    let n = be32(d, 8) as usize;
    if be32(d, 0) != 1 << 24 || be32(d, 4) != 0 || n == 0 || n > d.len() / 12 {
        return Err("bad root entry".into());
    }
    let base = n * 12;
    let mut last = base;
    fn rec(d: &[u8], base: usize, i: &mut usize, end: usize, me: u32, last: &mut usize) -> Result<Vec<Tree>, String> {
        let mut out = Vec::new();
        while *i < end {
            let at = *i;
            let t = be32(d, at * 12);
            let a = be32(d, at * 12 + 4);
            let b = be32(d, at * 12 + 8);
            *i += 1;
            let p = base + (t & 0xffffff) as usize;
            let e = d.get(p..).and_then(|r| r.iter().position(|c| *c == 0)).ok_or("name outside table")?;
            *last = (*last).max(p + e + 1);
            let (name, _, err) = encoding_rs::SHIFT_JIS.decode(&d[p..p + e]);
            if err {
                return Err("undecodable name".into());
            }
            match t >> 24 {
                0 => out.push(Tree::F { name: name.into_owned(), off: (a as u64) * 4, len: b }),
                1 => {
                    if a != me {
                        return Err(format!("entry {at}: parent index {a}, expected {me}"));
                    }
                    if (b as usize) < *i || b as usize > end {
                        return Err(format!("entry {at}: end index {b} outside {}..={end}", *i));
                    }
                    let kids = rec(d, base, i, b as usize, at as u32, last)?;
                    out.push(Tree::D { name: name.into_owned(), kids });
                }
                k => return Err(format!("entry {at}: type {k}")),
            }
        }
        Ok(out)
    }
    let mut i = 1;
    let t = rec(d, base, &mut i, n, 0, &mut last)?;
    Ok((t, last))
}

/// One partition of a hand-made image.
pub struct Part {
    pub ptype: u32,
    pub table: usize,
    pub key: [u8; 16],
    pub key_idx: u8,
    pub payload: Vec<u8>, // plaintext; padded to whole groups when written
    pub data_size: u64,
    pub hash: bool, // real hash tree, or random headers
}

pub fn ticket_bytes(key: &[u8; 16], key_idx: u8, title_id: &[u8; 8], r: &mut Rng) -> Vec<u8> {
    let mut t = vec![0u8; 0x2A4];
    put32(&mut t, 0, 0x10001);
    t[4..0x104].copy_from_slice(&r.bytes(0x100));
    t[0x140..0x180].copy_from_slice(&r.bytes(0x40));
    t[0x1DC..0x1E4].copy_from_slice(title_id);
    t[0x1F1] = key_idx;
    let mut iv = [0; 16];
    iv[..8].copy_from_slice(title_id);
    let mut k = *key;
    if (key_idx as usize) < 2 {
        cbc_enc(&KEYS[key_idx as usize], &iv, &mut k);
    }
    t[0x1BF..0x1CF].copy_from_slice(&k);
    t
}
pub fn tmd_bytes(n: usize, r: &mut Rng) -> Vec<u8> {
    let mut t = vec![0u8; 0x1E4 + 36 * n];
    put32(&mut t, 0, 0x10001);
    t[4..0x104].copy_from_slice(&r.bytes(0x100));
    t[0x140..0x180].copy_from_slice(&r.bytes(0x40));
    t[0x180..0x183].copy_from_slice(&r.bytes(3));
    t[0x184..0x19A].copy_from_slice(&r.bytes(22));
    t[0x19A..0x1D2].copy_from_slice(&r.bytes(56));
    t[0x1D8..0x1DE].copy_from_slice(&r.bytes(6));
    t[0x1DE..0x1E0].copy_from_slice(&(n as u16).to_be_bytes());
    t[0x1E0..0x1E2].copy_from_slice(&r.bytes(2));
    let c = r.bytes(36 * n);
    t[0x1E4..].copy_from_slice(&c);
    t
}
pub fn certs_bytes(r: &mut Rng) -> Vec<u8> {
    let mut out = Vec::new();
    for _ in 0..3 {
        let (st, sl) = *r.pick(&[(0x10000u32, 512usize), (0x10001, 256), (0x10002, 64)]);
        let (kt, kl) = *r.pick(&[(0u32, 512usize), (1, 256)]);
        out.extend_from_slice(&st.to_be_bytes());
        out.extend_from_slice(&r.bytes(sl));
        out.extend_from_slice(&[0; 60]);
        out.extend_from_slice(&r.bytes(0x40));
        out.extend_from_slice(&kt.to_be_bytes());
        out.extend_from_slice(&r.bytes(64));
        out.extend_from_slice(&r.bytes(kl));
        out.extend_from_slice(&r.bytes(8));
        out.extend_from_slice(&[0; 52]);
    }
    out
}
pub fn header_bytes(title: &str, dol: u64, fst: u64, fst_sz: u64, r: &mut Rng) -> Vec<u8> {
    let mut h = vec![0u8; 0x440];
    h[..10].copy_from_slice(&r.bytes(10));
    put32(&mut h, 0x18, 0x5D1C9EA3);
    put32(&mut h, 0x1C, r.next() as u32);
    h[0x20..0x20 + title.len()].copy_from_slice(title.as_bytes());
    h[0x60] = r.next() as u8;
    h[0x61] = r.next() as u8;
    put32(&mut h, 0x400, r.next() as u32);
    put32(&mut h, 0x404, r.next() as u32);
    put32(&mut h, 0x420, (dol / 4) as u32);
    put32(&mut h, 0x424, (fst / 4) as u32);
    put32(&mut h, 0x428, (fst_sz / 4) as u32);
    put32(&mut h, 0x42C, (fst_sz / 4) as u32);
    put32(&mut h, 0x430, r.next() as u32);
    put32(&mut h, 0x434, r.next() as u32);
    put32(&mut h, 0x438, r.next() as u32);
    h
}

pub struct Image {
    pub bytes: Vec<u8>,
    pub header: Vec<u8>,
    pub region: [u8; 32],
    pub listed: Vec<(u32, u64)>,  // type, offset in table order
    pub tmd: Vec<Vec<u8>>,        // per listed partition
    pub certs: Vec<Vec<u8>>,
    pub tickets: Vec<Vec<u8>>,
    pub data_off: Vec<u64>,
}

/// Lay out an image by hand. Partition i of `parts` is listed in table parts[i].table.
pub fn make_image(parts: &[Part], r: &mut Rng) -> Image {
    let header = header_bytes("hand made", 0, 0, 0, r);
    let region: [u8; 32] = r.arr();
    let mut bytes = vec![0u8; 0x50000];
    bytes[..0x440].copy_from_slice(&header);
    bytes[0x4E000..0x4E020].copy_from_slice(&region);
    let mut offs = Vec::new();
    let (mut tmds, mut certs, mut tickets, mut doffs) = (vec![], vec![], vec![], vec![]);
    for p in parts {
        let off = bytes.len();
        offs.push(off as u64);
        let title_id: [u8; 8] = r.arr();
        let tik = ticket_bytes(&p.key, p.key_idx, &title_id, r);
        let tmd = tmd_bytes(1 + r.below(3) as usize, r);
        let cert = certs_bytes(r);
        let data_off = 0x20000usize;
        let mut head = vec![0u8; data_off];
        head[..0x2A4].copy_from_slice(&tik);
        let tmd_off = 0x2C0;
        let cert_off = (tmd_off + tmd.len() + 31) / 32 * 32;
        put32(&mut head, 0x2A4, tmd.len() as u32);
        put32(&mut head, 0x2A8, (tmd_off / 4) as u32);
        put32(&mut head, 0x2AC, cert.len() as u32);
        put32(&mut head, 0x2B0, (cert_off / 4) as u32);
        put32(&mut head, 0x2B4, 0x8000 / 4);
        put32(&mut head, 0x2B8, (data_off / 4) as u32);
        put32(&mut head, 0x2BC, (p.data_size / 4) as u32);
        head[tmd_off..tmd_off + tmd.len()].copy_from_slice(&tmd);
        head[cert_off..cert_off + cert.len()].copy_from_slice(&cert);
        bytes.extend_from_slice(&head);
        let mut pay = p.payload.clone();
        let groups = (pay.len() + GPAY - 1) / GPAY;
        pay.resize(groups * GPAY, 0);
        for g in 0..groups {
            let hdrs: Vec<[u8; HDR]>;
            let h = if p.hash {
                None
            } else {
                hdrs = (0..64).map(|_| r.arr()).collect();
                Some(&hdrs[..])
            };
            let (raw, _) = enc_group(&pay[g * GPAY..][..GPAY], &p.key, h);
            bytes.extend_from_slice(&raw);
        }
        tmds.push(tmd);
        certs.push(cert);
        tickets.push(tik);
        doffs.push((off + data_off) as u64);
    }
    // tables
    let mut listed = Vec::new();
    let (mut t2, mut c2, mut k2, mut d2) = (vec![], vec![], vec![], vec![]);
    let mut at = 0x40020usize;
    for t in 0..4 {
        let members: Vec<usize> = (0..parts.len()).filter(|i| parts[*i].table == t).collect();
        put32(&mut bytes, 0x40000 + 8 * t, members.len() as u32);
        if members.is_empty() {
            // the position of an empty table means nothing
            put32(&mut bytes, 0x40004 + 8 * t, r.next() as u32);
            continue;
        }
        put32(&mut bytes, 0x40004 + 8 * t, (at / 4) as u32);
        for i in members {
            put32(&mut bytes, at, (offs[i] / 4) as u32);
            put32(&mut bytes, at + 4, parts[i].ptype);
            listed.push((parts[i].ptype, offs[i]));
            t2.push(tmds[i].clone());
            c2.push(certs[i].clone());
            k2.push(tickets[i].clone());
            d2.push(doffs[i]);
            at += 8;
        }
        at += 8 * r.below(3) as usize;
    }
    Image { bytes, header, region, listed, tmd: t2, certs: c2, tickets: k2, data_off: d2 }
}
