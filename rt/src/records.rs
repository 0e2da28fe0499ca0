//! C09: every record against its byte layout, written down here independently.
use crate::oracle::*;
use crate::{ensure, step, R};
use binrw::{BinReaderExt, BinWriterExt};
use disc_riider::structs::*;
use std::io::Cursor;

fn e(x: binrw::Error) -> String {
    format!("{x:?}")
}
/// layout of a record under construction
struct L(Vec<u8>);
impl L {
    fn u8(&mut self, v: u8) { self.0.push(v) }
    fn u16(&mut self, v: u16) { self.0.extend_from_slice(&v.to_be_bytes()) }
    fn u32(&mut self, v: u32) { self.0.extend_from_slice(&v.to_be_bytes()) }
    fn u64(&mut self, v: u64) { self.0.extend_from_slice(&v.to_be_bytes()) }
    fn b(&mut self, v: &[u8]) { self.0.extend_from_slice(v) }
    fn z(&mut self, n: usize) { self.0.resize(self.0.len() + n, 0) }
    fn sh(&mut self, v: u64) { self.u32((v >> 2) as u32) }
}
macro_rules! both {
    ($r:expr, $T:ty, $val:expr, $bytes:expr, $size:expr) => {{
        let val: $T = $val;
        let bytes: Vec<u8> = $bytes;
        ensure!(bytes.len() == $size, "harness: layout of {} has {} bytes", stringify!($T), bytes.len());
        let mut w = Cursor::new(Vec::new());
        w.write_be(&val).map_err(e)?;
        ensure!(w.position() == $size as u64, "{}: {} bytes written, the record has {}", stringify!($T), w.position(), $size);
        let got = w.into_inner();
        if got != bytes {
            let at = got.iter().zip(&bytes).position(|(a, b)| a != b).unwrap_or(bytes.len());
            return Err(format!("{} written with byte {at:#x} = {:#x}, the layout says {:#x}: {:?}", stringify!($T), got[at], bytes[at], val));
        }
        let mut tail = bytes.clone();
        tail.extend_from_slice(&[0xEE; 16]);
        let mut c = Cursor::new(&tail);
        let back: $T = c.read_be().map_err(e)?;
        ensure!(back == val, "{} parsed as {:?}, written was {:?}", stringify!($T), back, val);
        ensure!(c.position() == $size as u64, "{}: parsing consumed {} bytes of {}", stringify!($T), c.position(), $size);
    }};
}
fn off(r: &mut Rng) -> u64 {
    (match r.below(4) { 0 => *r.pick(&[0u32, 1, u32::MAX, 0x8000_0000, 0x4000_0000, 0x3FFF_FFFF]), _ => r.next() as u32 }) as u64 * 4
}
fn w32(r: &mut Rng) -> u32 {
    match r.below(6) { 0 => 0, 1 => u32::MAX, _ => r.next() as u32 }
}

fn ticket(r: &mut Rng) -> (Ticket, Vec<u8>) {
    let st = *r.pick(&[SigType::Rsa4096, SigType::Rsa2048, SigType::EllipticalCurve]);
    let t = Ticket {
        sig_type: st, sig: r.arr(), sig_issuer: r.arr(), ecdh: r.arr(), ticket_id: r.arr(), console_id: r.arr(), title_id: r.arr(),
        unk: r.next() as u16, ticket_version: r.next() as u16, permitted_titles_mask: w32(r), permit_mask: w32(r),
        title_export_allowed: r.next() as u8, common_key_idx: r.below(2) as u8, content_access_permissions: r.arr(), unk2: r.next() as u16,
        time_limits: std::array::from_fn(|_| TicketTimeLimit { enable_time_limit: w32(r), time_limit: w32(r) }),
        title_key: r.arr(),
    };
    let mut l = L(vec![]);
    l.u32(match st { SigType::Rsa4096 => 0x10000, SigType::Rsa2048 => 0x10001, _ => 0x10002 });
    l.b(&t.sig); l.z(60); l.b(&t.sig_issuer); l.b(&t.ecdh); l.z(3);
    let mut iv = [0; 16];
    iv[..8].copy_from_slice(&t.title_id);
    let mut k = t.title_key;
    cbc_enc(&KEYS[t.common_key_idx as usize], &iv, &mut k);
    l.b(&k); l.z(1); l.b(&t.ticket_id); l.b(&t.console_id); l.b(&t.title_id); l.u16(t.unk); l.u16(t.ticket_version);
    l.u32(t.permitted_titles_mask); l.u32(t.permit_mask); l.u8(t.title_export_allowed); l.u8(t.common_key_idx); l.z(48);
    l.b(&t.content_access_permissions); l.u16(t.unk2);
    for x in &t.time_limits { l.u32(x.enable_time_limit); l.u32(x.time_limit); }
    (t, l.0)
}

pub fn c09(r: &mut Rng, case: u64) -> R {
    step!("case {case}");
    match case % 8 {
        0 => {
            step!("ticket");
            let (t, b) = ticket(r);
            both!(r, Ticket, t, b, 0x2A4);
        }
        1 => {
            let n = match r.below(4) { 0 => 0, 1 => 1, 2 => r.below(5), _ => r.below(400) } as usize;
            step!("title metadata with {n} contents");
            let st = *r.pick(&[SigType::Rsa4096, SigType::Rsa2048, SigType::EllipticalCurve]);
            let t = TMD {
                sig_type: st, sig: r.arr(), sig_issuer: r.arr(), version: r.next() as u8, ca_crl_version: r.next() as u8, signer_crl_version: r.next() as u8,
                ios_id_major: w32(r), ios_id_minor: w32(r), title_id_major: w32(r), title_id_minor: r.arr(), title_type: w32(r), group_id: r.next() as u16,
                fakesign_padding: std::array::from_fn(|_| r.next()), access_flags: w32(r), title_version: r.next() as u16, boot_idx: r.next() as u16,
                contents: (0..n).map(|_| TMDContent { id: w32(r), index: r.next() as u16, content_type: r.next() as u16, size: r.next(), hash: r.arr() }).collect(),
            };
            let mut l = L(vec![]);
            l.u32(match st { SigType::Rsa4096 => 0x10000, SigType::Rsa2048 => 0x10001, _ => 0x10002 });
            l.b(&t.sig); l.z(60); l.b(&t.sig_issuer); l.u8(t.version); l.u8(t.ca_crl_version); l.u8(t.signer_crl_version); l.z(1);
            l.u32(t.ios_id_major); l.u32(t.ios_id_minor); l.u32(t.title_id_major); l.b(&t.title_id_minor); l.u32(t.title_type); l.u16(t.group_id);
            for x in t.fakesign_padding { l.u64(x) }
            l.z(6); l.u32(t.access_flags); l.u16(t.title_version); l.u16(n as u16); l.u16(t.boot_idx); l.z(2);
            for c in &t.contents { l.u32(c.id); l.u16(c.index); l.u16(c.content_type); l.u64(c.size); l.b(&c.hash) }
            both!(r, TMD, t, l.0, 0x1E4 + 36 * n);
        }
        2 => {
            let (st, sn, sl) = *r.pick(&[(SigType::Rsa4096, 0x10000u32, 512usize), (SigType::Rsa2048, 0x10001, 256), (SigType::EllipticalCurve, 0x10002, 64)]);
            let (kt, kn, kl) = *r.pick(&[(KeyType::Rsa4096, 0u32, 512usize), (KeyType::Rsa2048, 1, 256)]);
            step!("certificate {st:?} {kt:?}");
            let c = Certificate { sig_type: st, sig: r.bytes(sl), issuer: r.arr(), key_type: kt, subject: r.arr(), key: r.bytes(kl), modulus: w32(r), pub_exp: w32(r) };
            let mut l = L(vec![]);
            l.u32(sn); l.b(&c.sig); l.z(60); l.b(&c.issuer); l.u32(kn); l.b(&c.subject); l.b(&c.key); l.u32(c.modulus); l.u32(c.pub_exp); l.z(52);
            both!(r, Certificate, c, l.0, 4 + sl + 60 + 64 + 4 + 64 + kl + 8 + 52);
        }
        3 => {
            step!("partition header");
            let (t, b) = ticket(r);
            let h = WiiPartitionHeader { ticket: t, tmd_size: w32(r), tmd_off: off(r).into(), cert_chain_size: w32(r), cert_chain_off: off(r).into(), global_hash_table_off: off(r).into(), data_off: off(r).into(), data_size: off(r).into() };
            let mut l = L(b);
            l.u32(h.tmd_size); l.sh(*h.tmd_off); l.u32(h.cert_chain_size); l.sh(*h.cert_chain_off); l.sh(*h.global_hash_table_off); l.sh(*h.data_off); l.sh(*h.data_size);
            both!(r, WiiPartitionHeader, h, l.0, 0x2C0);
        }
        4 => {
            let n = *r.pick(&[0usize, 1, 5, 30, 62, 63]);
            let mut title: String = (0..n).map(|_| (b'!' + r.below(90) as u8) as char).collect();
            if n >= 6 && r.chance(1, 2) {
                title.truncate(n - 6);
                title.push_str("ゼル");
            }
            step!("disc header with title {title:?}");
            let h = DiscHeader {
                game_id: r.arr(), disc_num: r.next() as u8, disc_version: r.next() as u8, audio_streaming: r.next() as u8, audio_stream_buf_size: r.next() as u8,
                wii_magic: w32(r), gcn_magic: w32(r), game_title: title.clone(), disable_hash_verification: r.next() as u8, disable_disc_enc: r.next() as u8,
                debug_mon_off: w32(r), debug_load_addr: w32(r), dol_off: off(r).into(), fst_off: off(r).into(), fst_sz: off(r).into(), fst_max_sz: off(r).into(),
                fst_memory_address: w32(r), user_position: w32(r), user_sz: w32(r),
            };
            let mut l = L(vec![]);
            l.b(&h.game_id); l.u8(h.disc_num); l.u8(h.disc_version); l.u8(h.audio_streaming); l.u8(h.audio_stream_buf_size); l.z(14);
            l.u32(h.wii_magic); l.u32(h.gcn_magic); l.b(title.as_bytes()); l.z(64 - title.len()); l.u8(h.disable_hash_verification); l.u8(h.disable_disc_enc);
            l.z(0x39E); l.u32(h.debug_mon_off); l.u32(h.debug_load_addr); l.z(0x18); l.sh(*h.dol_off); l.sh(*h.fst_off); l.sh(*h.fst_sz); l.sh(*h.fst_max_sz);
            l.u32(h.fst_memory_address); l.u32(h.user_position); l.u32(h.user_sz); l.z(4);
            both!(r, DiscHeader, h, l.0, 0x440);
        }
        5 => {
            step!("executable header");
            let h = DOLHeader {
                text_off: std::array::from_fn(|_| w32(r)), data_off: std::array::from_fn(|_| w32(r)), text_starts: std::array::from_fn(|_| w32(r)), data_starts: std::array::from_fn(|_| w32(r)),
                text_sizes: std::array::from_fn(|_| w32(r)), data_sizes: std::array::from_fn(|_| w32(r)), bss_start: w32(r), bss_size: w32(r), entry_point: w32(r),
            };
            let mut l = L(vec![]);
            for a in [&h.text_off[..], &h.data_off, &h.text_starts, &h.data_starts, &h.text_sizes, &h.data_sizes] { for x in a { l.u32(*x) } }
            l.u32(h.bss_start); l.u32(h.bss_size); l.u32(h.entry_point);
            both!(r, DOLHeader, h, l.0, 0xE4);
        }
        6 => {
            step!("apploader header");
            let h = ApploaderHeader { size1: w32(r), size2: w32(r) };
            let mut l = L(vec![]);
            l.z(0x14); l.u32(h.size1); l.u32(h.size2);
            both!(r, ApploaderHeader, h, l.0, 0x1C);
        }
        _ => {
            let ty = r.below(3) as u32;
            let o = off(r);
            step!("partition entry type {ty} at {o:#x}");
            let mut l = L(vec![]);
            l.sh(o); l.u32(ty);
            let p: WiiPartTableEntry = Cursor::new(&l.0).read_be().map_err(e)?;
            ensure!(p.get_offset() == o, "entry offset parsed as {:#x}, is {o:#x}", p.get_offset());
            let want = match ty { 0 => WiiPartType::Data, 1 => WiiPartType::Update, _ => WiiPartType::Channel };
            ensure!(p.get_type() == want, "entry type {ty} parsed as {:?}", p.get_type());
            both!(r, WiiPartTableEntry, p, l.0, 8);
        }
    }
    Ok(())
}
