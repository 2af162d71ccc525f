// child of crate::packet: packets
#![allow(dead_code, unused_imports)]
use super::vh_headers::{id, same_long, same_short, un};
use super::*;
use crate::connection::vharness as vconn;
use crate::frame::vharness as vframe;
use crate::utils::make_result_stream;
use crate::vrf::{self, *};
use crate::vcheck;

/// None: equal; Some(what): the field that differs. `deep`: compare the frames too.
fn diff(p: &Packet, w: &RP, deep: bool) -> Option<&'static str> {
    macro_rules! c { ($c:expr, $n:expr) => { if !($c) { return Some($n); } } }
    match (p, &w.ty) {
        (Packet::VersionNegotiation(x), RT::Vn) => { c!(same_long(&x.header, &w.h), "header"); c!(x.supported_versions == w.versions, "supported versions"); }
        (Packet::Initial(x), RT::Initial) => { c!(same_long(&x.header, &w.h), "header"); c!(x.token == w.token, "token"); c!(x.packet_number == w.pn, "packet number"); c!(x.packet_number_bytes == w.pnb, "packet number bytes"); c!(!deep || vframe::views(&x.packet_payload) == w.frames, "frames"); }
        (Packet::ZeroRtt(x), RT::ZeroRtt) => { c!(same_long(&x.header, &w.h), "header"); c!(x.packet_number == w.pn, "packet number"); c!(x.packet_number_bytes == w.pnb, "packet number bytes"); c!(!deep || vframe::views(&x.packet_payload) == w.frames, "frames"); }
        (Packet::Handshake(x), RT::Handshake) => { c!(same_long(&x.header, &w.h), "header"); c!(x.packet_number == w.pn, "packet number"); c!(x.packet_number_bytes == w.pnb, "packet number bytes"); c!(!deep || vframe::views(&x.packet_payload) == w.frames, "frames"); }
        (Packet::OneRtt(x), RT::OneRtt) => { c!(same_short(&x.header, &w.h), "header"); c!(x.packet_number == w.pn, "packet number"); c!(x.packet_number_bytes == w.pnb, "packet number bytes"); c!(!deep || vframe::views(&x.packet_payload) == w.frames, "frames"); }
        _ => return Some("packet type"),
    }
    None
}

fn short(x: &impl std::fmt::Debug) -> String { let s = format!("{:?}", x); if s.len() > 700 { format!("{}..", s.chars().take(700).collect::<String>()) } else { s } }
fn spaces(c: &RC) -> String { c.sp.iter().map(|s| format!("[largest {:?}, remote keys {:?}]", s.largest_remote, s.remote.as_ref().map(|k| format!("key {} iv {} hp {}", vrf::hex(&k.key), vrf::hex(&k.iv), vrf::hex(&k.hp))))).collect::<Vec<_>>().join(" ") }

pub fn trial(p: &str, g: &mut G) -> V {
    match p {
        "C09" => c09(g),
        "C10" => if g.bool() { c10_seal(g) } else { decode_one(g, true) },
        "C12" => if g.bool() { c12_seal(g) } else { c12_open(g) },
        "C07" => if g.bool() { c07_seal(g) } else { c07_open(g) },
        "C08" => c08_open(g),
        "C11" => if g.bool() { c11_seal(g) } else { c11_open(g) },
        "C13" => c13(g),
        "C15" => c15(g),
        _ => Ok(()),
    }
}

/// One packet (of any type, possibly followed by others): decode_next_packet against the reference.
fn decode_one(g: &mut G, deep: bool) -> V {
    let rc = g.conn();
    let c = vconn::make(&rc);
    let mut b = g.packet(&rc);
    if g.bool() { let t = g.packet(&rc); b.extend(t); }
    if g.one_in(5) { g.mutate(&mut b); }
    if b.is_empty() { return Ok(()); }
    let mut r = R::new(&b);
    let want = vrf::parse_packet(&mut r, &rc);
    let mut s = make_result_stream(&b);
    let got = decode_next_packet(&mut s, &c);
    let left = s.count();
    match (got, want) {
        (Ok(p), Some(w)) => {
            if let Some(what) = diff(&p, &w, deep) { return Err(format!("packet {} at a receiver {}: {} differs: got {}, expected {}", vrf::hex(&b), spaces(&rc), what, short(&p), short(&w))); }
            vcheck!(left == r.rest().len(), "packet {}: {} bytes left, expected {}", vrf::hex(&b), left, r.rest().len());
        }
        (Err(_), None) => {}
        (p, w) => return Err(format!("packet {} at a receiver {}: got {}, expected {}", vrf::hex(&b), spaces(&rc), short(&p), short(&w))),
    }
    Ok(())
}

/// Serialized packets against the reference layout, and opened by the peer.
fn c10_seal(g: &mut G) -> V {
    let mut rc = g.conn();
    let hs = g.bool();
    let i = if hs { 1 } else { 0 };
    rc.sp[i].next = rc.sp[i].next.min((1 << 62) - 2);
    let mut c = vconn::make(&rc);
    let n = 1 + g.below(4);
    let mut fs: Vec<RF> = (0..n).map(|_| g.frame(false)).collect();
    if g.one_in(10) { fs.truncate(1); }
    let tok = g.blob();
    let tok = if g.one_in(3) { vec![] } else { tok };
    let (bytes, h, pn, pnb) = if hs {
        let p = match PacketHandshake::new(vframe::reals(&fs), &mut c) { Ok(p) => p, Err(_) => return Ok(()) };
        let h = p.header.clone();
        (p.serialize(&c), h, p.packet_number, p.packet_number_bytes.clone())
    } else {
        let p = match PacketInitial::new(vframe::reals(&fs), if tok.is_empty() && g.bool() { None } else { Some(tok.clone()) }, &mut c) { Ok(p) => p, Err(_) => return Ok(()) };
        let h = p.header.clone();
        vcheck!(p.token == tok, "token of the new packet is {}", vrf::hex(&p.token));
        (p.serialize(&c), h, p.packet_number, p.packet_number_bytes.clone())
    };
    let pt = vrf::enc_frames(&fs, false).unwrap();
    let scid = rc.scid.clone().unwrap_or_default();
    let rh = RH { first: 0xc0 | if hs { 0x20 } else { 0 } | (pnb.len() as u8).wrapping_sub(1), long: true, version: 1, dcid: rc.dcid.clone(), scid };
    vcheck!(same_long(&h, &rh), "header of the new packet is {:?}, expected {:?}", h, rh);
    let k = match &rc.sp[i].local { Some(k) => k.clone(), None => { vcheck!(bytes.is_err(), "a packet was serialized without keys"); return Ok(()) } };
    if pt.len() + pnb.len() < 4 { return Ok(()); } // no full sample: refused
    let want = vrf::seal_packet(&rh, if hs { None } else { Some((&tok, vrf::enc_varint(tok.len() as u64).unwrap())) }, pn, &pnb, &pt, &k, &|l| vrf::enc_varint(l).unwrap());
    let got = bytes.map_err(|e| format!("serialize failed: {:?}", e))?;
    vcheck!(got == want, "packet number {:#x} ({:?}), token {}, frames {}: serialized as {}, expected {}", pn, pnb, vrf::hex(&tok), short(&fs), vrf::hex(&got), vrf::hex(&want));
    // the peer: remote keys = our local keys, largest received between the largest acknowledged and pn
    let mut pc = g.conn();
    let ll = rc.sp[i].largest_local;
    pc.sp[i].remote = Some(k);
    pc.sp[i].largest_remote = match ll { Some(l) => Some(l + g.below(pn - l)), None => if g.bool() { None } else if pn > 0 { Some(pn - 1) } else { None } };
    let peer = vconn::make(&pc);
    let mut dg = got.clone();
    let tail = if g.bool() { g.packet(&pc) } else { vec![] };
    dg.extend(&tail);
    let mut s = make_result_stream(&dg);
    let p = decode_next_packet(&mut s, &peer).map_err(|e| format!("the peer cannot open the packet {} (pn {:#x}, its largest {:?}): {:?}", vrf::hex(&got), pn, pc.sp[i].largest_remote, e))?;
    let w = RP { ty: if hs { RT::Handshake } else { RT::Initial }, h: rh, token: if hs { vec![] } else { tok }, pn, pnb, frames: fs, versions: vec![] };
    if let Some(what) = diff(&p, &w, true) { return Err(format!("the peer opened {} with a different {}: {} instead of {}", vrf::hex(&got), what, short(&p), short(&w))); }
    vcheck!(s.count() == tail.len(), "the peer did not consume exactly the packet {}", vrf::hex(&got));
    Ok(())
}

fn c09(g: &mut G) -> V {
    let mut rc = g.conn();
    for s in rc.sp.iter_mut() { s.next = s.next.min((1 << 62) - 200); }
    let mut c = vconn::make(&rc);
    let mut last = [rc.sp[0].next, rc.sp[1].next];
    let mut first = [rc.sp[0].next == 0, rc.sp[1].next == 0];
    for _ in 0..1 + g.below(12) {
        let hs = g.below(2) as usize;
        let before = vconn::view(&c);
        let fs = if g.one_in(4) { g.frames(true) } else { vec![RF::Ping] };
        let r = if hs == 1 { PacketHandshake::new(vframe::reals(&fs), &mut c).map(|p| (p.header, p.packet_number, p.packet_number_bytes)) } else { PacketInitial::new(vframe::reals(&fs), None, &mut c).map(|p| (p.header, p.packet_number, p.packet_number_bytes)) };
        let after = vconn::view(&c);
        for j in 0..3 {
            let (a, b) = (&before.0[j], &after.0[j]);
            vcheck!(a.0 == b.0 && a.1 == b.1 && a.3 == b.3 && a.4 == b.4 && (hs == j || a.2 == b.2), "a new packet in space {} changed space {}: {:?} to {:?}", hs, j, a, b);
        }
        vcheck!(before.1 == after.1 && before.2 == after.2, "a new packet changed the connection ids");
        vcheck!(after.0[hs].2 > before.0[hs].2, "a new packet (failed: {}) left next_pn at {:#x}", r.is_err(), after.0[hs].2);
        if let Ok((h, pn, b)) = r {
            vcheck!(pn > last[hs] || first[hs], "space {}: packet number {:#x} used after {:#x}", hs, pn, last[hs]);
            vcheck!(pn.to_be_bytes()[8 - b.len()..] == b[..] && !b.is_empty() && b.len() <= 4, "packet number {:#x} is encoded as {:?}", pn, b);
            vcheck!((h.header_byte & 3) as usize + 1 == b.len() && !h.is_protected, "first byte {:#x} for a packet number of {} bytes", h.header_byte, b.len());
            vcheck!(h.header_byte & 0xf0 == if hs == 1 { 0xe0 } else { 0xc0 }, "first byte {:#x}", h.header_byte);
            last[hs] = pn;
            first[hs] = false;
        } else { last[hs] = after.0[hs].2.max(last[hs]).min(before.0[hs].2 + 1).max(last[hs]); }
    }
    Ok(())
}

fn c13(g: &mut G) -> V {
    let rc = g.conn();
    let c = vconn::make(&rc);
    let b = g.datagram(&rc);
    vrf::limit((128 << 10) + 512 * b.len());
    let _ = decode_packets(&mut make_result_stream(&b), &c);
    vrf::limit(64 << 20);
    let f = g.frame_bytes();
    vrf::limit((128 << 10) + 512 * f.len());
    let _ = deserialize_frames(&mut make_result_stream(&f));
    Ok(())
}

fn c15(g: &mut G) -> V {
    let rc = g.conn();
    let c = vconn::make(&rc);
    let b = g.datagram(&rc);
    let want = vrf::parse_datagram(&b, &rc);
    let got = decode_packets(&mut make_result_stream(&b), &c);
    match (got, want) {
        (Ok(p), Some(w)) => {
            vcheck!(p.len() == w.len(), "datagram {} gave {} packets, expected {}", vrf::hex(&b), p.len(), w.len());
            for (i, (x, y)) in p.iter().zip(&w).enumerate() {
                if let Some(what) = diff(x, y, false) { return Err(format!("datagram {} at a receiver {}: packet {}: {} differs: got {}, expected {}", vrf::hex(&b), spaces(&rc), i, what, short(x), short(y))); }
            }
        }
        (Err(_), None) => {}
        (p, w) => return Err(format!("datagram {} at a receiver {}: got {}, expected {}", vrf::hex(&b), spaces(&rc), short(&p), short(&w))),
    }
    Ok(())
}

/// The six key sets of a connection: local 0..3, remote 3..6.
fn sets(rc: &RC) -> Vec<(usize, Keys)> {
    (0..6).filter_map(|j| if j < 3 { rc.sp[j].local.clone() } else { rc.sp[j - 3].remote.clone() }.map(|k| (j, k))).collect()
}
fn set_name(j: usize) -> String { format!("{} keys of space {}", if j < 3 { "local" } else { "remote" }, j % 3) }

/// A well-formed packet for `rc` of any protected type, to be sealed with any keys and any nonce.
struct Fresh { ty: RT, h: RH, tok: Vec<u8>, pn: u64, pnb: Vec<u8>, pt: Vec<u8> }
impl Fresh {
    fn new(g: &mut G, rc: &RC) -> Self {
        let ty = [RT::Initial, RT::Handshake, RT::ZeroRtt, RT::OneRtt][g.below(4) as usize].clone();
        let (pn, pnb) = g.pn_for(rc.sp[space_of(&ty)].largest_remote);
        let h = if ty == RT::OneRtt { RH { first: 0x40 | (g.u8() & 0x3c) | (pnb.len() as u8 - 1), long: false, version: 0, dcid: g.bytes(8), scid: vec![] } } else { g.long_header(&ty, pnb.len()) };
        let mut pt = vec![1u8, 0, 0, 0];
        if g.bool() { let f = g.frame(false); pt = vrf::enc_frames(&[f, RF::Ping, RF::Padding, RF::Padding], false).unwrap(); }
        Fresh { ty, h, tok: g.small_blob(), pn, pnb, pt }
    }
    fn seal(&self, k: &Keys, nonce_pn: u64) -> Vec<u8> {
        let tl = vrf::enc_varint(self.tok.len() as u64).unwrap();
        vrf::seal_packet(&self.h, if self.ty == RT::Initial { Some((&self.tok, tl)) } else { None }, nonce_pn, &self.pnb, &self.pt, k, &|l| vrf::enc_varint(l).unwrap())
    }
}
fn pnb_of(p: &Packet) -> Option<(u8, bool, u64, Vec<u8>)> {
    Some(match p {
        Packet::Initial(x) => (x.header.header_byte, x.header.is_protected, x.packet_number, x.packet_number_bytes.clone()),
        Packet::ZeroRtt(x) => (x.header.header_byte, x.header.is_protected, x.packet_number, x.packet_number_bytes.clone()),
        Packet::Handshake(x) => (x.header.header_byte, x.header.is_protected, x.packet_number, x.packet_number_bytes.clone()),
        Packet::OneRtt(x) => (x.header.header_byte, x.header.is_protected, x.packet_number, x.packet_number_bytes.clone()),
        _ => return None,
    })
}
/// A new Initial or Handshake packet, serialized: (space, bytes, offset of the packet number, header byte, packet number, its bytes)
fn sealed(g: &mut G, rc: &RC) -> Option<(usize, Vec<u8>, usize, Vec<u8>, u64, Vec<u8>)> {
    let mut c = vconn::make(rc);
    let fs = vec![g.frame(false), RF::Ping, RF::Padding, RF::Padding, RF::Padding];
    if g.bool() {
        let p = PacketHandshake::new(vframe::reals(&fs), &mut c).ok()?;
        let b = p.serialize(&c).ok()?;
        let mut r = R::new(&b);
        vrf::parse_header(&mut r)?; r.varint()?;
        Some((1, b.clone(), r.p, p.header.to_bytes(), p.packet_number, p.packet_number_bytes))
    } else {
        let tok = g.small_blob();
        let p = PacketInitial::new(vframe::reals(&fs), Some(tok), &mut c).ok()?;
        let b = p.serialize(&c).ok()?;
        let mut r = R::new(&b);
        vrf::parse_header(&mut r)?; let n = r.varint()?; r.take(n)?; r.varint()?;
        Some((0, b.clone(), r.p, p.header.to_bytes(), p.packet_number, p.packet_number_bytes))
    }
}
fn conn_below(g: &mut G) -> RC { let mut rc = g.conn(); for s in rc.sp.iter_mut() { s.next = s.next.min((1 << 62) - 2); } rc }
/// Does `k` with the nonce of `pn` open the serialized packet, given the unprotected header and packet number?
fn opens(b: &[u8], at: usize, h: &[u8], pnb: &[u8], k: &Keys, pn: u64) -> bool {
    let mut aad = b[..at].to_vec();
    aad[..h.len()].copy_from_slice(h);
    aad.extend(pnb);
    b.len() >= at + pnb.len() && vrf::open(k, pn, &aad, &b[at + pnb.len()..]).is_some()
}

fn c12_seal(g: &mut G) -> V {
    let rc = conn_below(g);
    if let Some((i, b, at, h, pn, pnb)) = sealed(g, &rc) {
        vcheck!(rc.sp[i].local.is_some(), "a packet was sealed in space {} without keys: {}", i, vrf::hex(&b));
        for (j, k) in sets(&rc) { if j != i { vcheck!(!opens(&b, at, &h, &pnb, &k, pn), "a packet of space {} was sealed with the {}", i, set_name(j)); } }
    }
    Ok(())
}
fn c12_open(g: &mut G) -> V {
    let rc = g.conn();
    let c = vconn::make(&rc);
    let f = Fresh::new(g, &rc);
    for (j, k) in sets(&rc) {
        if j == space_of(&f.ty) + 3 { continue; }
        let b = f.seal(&k, f.pn);
        let r = decode_next_packet(&mut make_result_stream(&b), &c);
        vcheck!(r.is_err(), "a {:?} packet sealed with the {} was opened: {}", f.ty, set_name(j), vrf::hex(&b));
    }
    Ok(())
}
fn c07_seal(g: &mut G) -> V {
    let rc = conn_below(g);
    if let Some((i, b, at, h, _, pnb)) = sealed(g, &rc) {
        vcheck!(b[1..h.len()] == h[1..], "header protection changed more than the first byte: {} from {}", vrf::hex(&b[..h.len()]), vrf::hex(&h));
        if b.len() < at + 20 { return Ok(()); }
        let fits = sets(&rc).iter().any(|(_, k)| { let m = vrf::mask(&k.hp, &b[at + 4..at + 20]); b[0] == h[0] ^ (m[0] & 0x0f) && (0..pnb.len()).all(|n| b[at + n] == pnb[n] ^ m[n + 1]) });
        vcheck!(fits, "space {}: first byte {:#x} and packet number {} of packet {} are not header {:#x} and {} under the mask of its sample", i, b[0], vrf::hex(&b[at..at + pnb.len()]), vrf::hex(&b), h[0], vrf::hex(&pnb));
    }
    Ok(())
}
fn c07_open(g: &mut G) -> V {
    let rc = g.conn();
    let c = vconn::make(&rc);
    let f = Fresh::new(g, &rc);
    let k = match &rc.sp[space_of(&f.ty)].remote { Some(k) => k.clone(), None => return Ok(()) };
    let b = f.seal(&k, f.pn);
    if let Ok(p) = decode_next_packet(&mut make_result_stream(&b), &c) {
        let (first, prot, _, pnb) = match pnb_of(&p) { Some(x) => x, None => return Ok(()) };
        vcheck!(first == f.h.first && pnb == f.pnb && !prot, "packet {}: unprotected first byte {:#x} and packet number {}, expected {:#x} and {}", vrf::hex(&b), first, vrf::hex(&pnb), f.h.first, vrf::hex(&f.pnb));
    }
    if let Ok(h) = next_header_from_stream(&mut make_result_stream(&b)) {
        let l = match h { PacketHeader::Long(x) => x.packet_number_length().ok(), PacketHeader::Short(x) => x.packet_number_length().ok() };
        vcheck!(l.is_none(), "the packet number length {:?} of the received header {} is readable before protection is removed", l, vrf::hex(&b[..b.len().min(60)]));
    }
    Ok(())
}
fn others(pn: u64, pnb: &[u8]) -> Vec<u64> {
    let t = pnb.iter().fold(0u64, |a, x| a << 8 | *x as u64);
    let w = 1u64 << (8 * pnb.len());
    let mut v = vec![t, 0, pn.wrapping_add(1), pn.wrapping_sub(1), pn & 0xffff_ffff, pn & 0xffff, pn & 0xff, pn.wrapping_add(w), pn.wrapping_sub(w), pn.swap_bytes(), pn << 32];
    v.retain(|x| *x != pn);
    v
}
fn c08_open(g: &mut G) -> V {
    let rc = g.conn();
    let c = vconn::make(&rc);
    let f = Fresh::new(g, &rc);
    let k = match &rc.sp[space_of(&f.ty)].remote { Some(k) => k.clone(), None => return Ok(()) };
    let w = 1u64 << (8 * f.pnb.len());
    let l = rc.sp[space_of(&f.ty)].largest_remote;
    for n in [f.pn, f.pn.wrapping_add(w), f.pn.wrapping_sub(w), f.pnb.iter().fold(0u64, |a, x| a << 8 | *x as u64)] {
        let b = f.seal(&k, n);
        let r = decode_next_packet(&mut make_result_stream(&b), &c);
        if let Ok(p) = r {
            let pn = match pnb_of(&p) { Some(x) => x.2, None => return Ok(()) };
            vcheck!(pn == f.pn, "{:?} packet with packet number bytes {} at a receiver with largest {:?}: number {:#x}, expected {:#x}", f.ty, vrf::hex(&f.pnb), l, pn, f.pn);
        }
    }
    Ok(())
}
fn c11_seal(g: &mut G) -> V {
    let rc = conn_below(g);
    if let Some((i, b, at, h, pn, pnb)) = sealed(g, &rc) {
        for n in others(pn, &pnb) { for (j, k) in sets(&rc) {
            vcheck!(!opens(&b, at, &h, &pnb, &k, n), "space {}: the packet with number {:#x} was sealed with the nonce of {:#x} ({})", i, pn, n, set_name(j));
        } }
    }
    Ok(())
}
fn c11_open(g: &mut G) -> V {
    let rc = g.conn();
    let c = vconn::make(&rc);
    let f = Fresh::new(g, &rc);
    let k = match &rc.sp[space_of(&f.ty)].remote { Some(k) => k.clone(), None => return Ok(()) };
    for n in others(f.pn, &f.pnb) {
        if let Ok(p) = decode_next_packet(&mut make_result_stream(&f.seal(&k, n)), &c) {
            let pn = match pnb_of(&p) { Some(x) => x.2, None => return Ok(()) };
            vcheck!(pn == n, "{:?} packet with number {:#x} was opened with the nonce of {:#x}", f.ty, pn, n);
        }
    }
    Ok(())
}
