// child of crate::packet: headers
#![allow(dead_code, unused_imports)]
use super::*;
use crate::utils::make_result_stream;
use crate::vrf::{self, *};
use crate::vcheck;

pub fn id(b: &[u8]) -> U160 { let b = vrf::id20(b); U160 { idx0: u32::from_be_bytes([b[0], b[1], b[2], b[3]]), idx1: b[4..].iter().fold(0u128, |a, x| a << 8 | *x as u128) } }
pub fn un(u: &U160) -> [u8; 20] { let mut o = [0u8; 20]; o[..4].copy_from_slice(&u.idx0.to_be_bytes()); o[4..].copy_from_slice(&u.idx1.to_be_bytes()); o }

pub fn rt(t: &PacketType) -> Option<RT> {
    Some(match t { PacketType::VersionNegotiation => RT::Vn, PacketType::Initial => RT::Initial, PacketType::ZeroRtt => RT::ZeroRtt, PacketType::Handshake => RT::Handshake, PacketType::Retry => RT::Retry, PacketType::OneRtt => RT::OneRtt, _ => return None })
}
/// Does the parsed long header say what `w` says (first byte included)?
pub fn same_long(h: &LongPacketHeader, w: &RH) -> bool {
    w.long && h.header_byte == w.first && h.version == w.version && h.destination_connection_id_length as usize == w.dcid.len() && h.source_connection_id_length as usize == w.scid.len()
        && (w.version == 0 || (un(&h.source_connection_id) == vrf::id20(&w.scid) && un(&h.destination_connection_id) == vrf::id20(&w.dcid)))
        && (w.version != 0 || w.dcid.len() > 20 || un(&h.destination_connection_id) == vrf::id20(&w.dcid))
        && h.to_bytes() == w.enc()
}
pub fn same_short(h: &ShortPacketHeader, w: &RH) -> bool { !w.long && h.header_byte == w.first && un(&h.destination_connection_id) == vrf::id20(&w.dcid) && h.to_bytes() == w.enc() }

pub fn trial(p: &str, g: &mut G) -> V { match p { "C06" => c06(g), "C07" => c07(g), "C16" => c16(g), "C13" => c13(g), _ => Ok(()) } }

fn header_bytes(g: &mut G) -> Vec<u8> {
    let v = match g.below(4) { 0 => 0u32, 1 => 1, _ => g.int() as u32 };
    let ln = |g: &mut G| match g.below(5) { 0 => 20, 1 => 21, 2 => g.below(256), _ => g.below(21) } as usize;
    let mut b = if g.bool() { let (d, s) = (ln(g), ln(g)); RH { first: 0x80 | g.u8(), long: true, version: v, dcid: g.bytes(d), scid: g.bytes(s) }.enc() }
        else { RH { first: 0x7f & g.u8(), long: false, version: 0, dcid: g.bytes(8), scid: vec![] }.enc() };
    if g.bool() { let t = g.small_blob(); b.extend(t); }
    if g.one_in(3) { g.mutate(&mut b); }
    b
}

fn c06(g: &mut G) -> V {
    let b = header_bytes(g);
    let mut r = R::new(&b);
    let want = vrf::parse_header(&mut r);
    let mut s = make_result_stream(&b);
    let got = next_header_from_stream(&mut s);
    let left = s.count();
    match (got, want) {
        (Ok(h), Some(w)) => {
            let ok = match &h { PacketHeader::Long(x) => same_long(x, &w), PacketHeader::Short(x) => same_short(x, &w) };
            vcheck!(ok, "header {} parsed as {:?}, expected {:?}", vrf::hex(&b), h, w);
            vcheck!(left == r.rest().len(), "header {}: {} bytes left, expected {}", vrf::hex(&b), left, r.rest().len());
            vcheck!(rt(&h.get_packet_type()) == Some(w.ty()), "header {} has type {:?}, expected {:?}", vrf::hex(&b), h.get_packet_type(), w.ty());
            vcheck!(h.get_destination_id_length() as usize == w.dcid.len(), "header {}: destination id length {}", vrf::hex(&b), h.get_destination_id_length());
            if w.dcid.len() <= 20 { vcheck!(un(&h.get_destination_id()) == vrf::id20(&w.dcid), "header {}: destination id {:?}", vrf::hex(&b), h.get_destination_id()); }
        }
        (Err(_), None) => {}
        (h, w) => return Err(format!("header {} parsed as {:?}, expected {:?}", vrf::hex(&b), h, w)),
    }
    Ok(())
}

fn c16(g: &mut G) -> V {
    let b = header_bytes(g);
    let w = vrf::parse_header(&mut R::new(&b));
    if let (Ok(h), Some(w)) = (next_header_from_stream(&mut make_result_stream(&b)), w) {
        if w.dcid.len() <= 20 {
            vcheck!(un(&h.get_destination_id()) == vrf::id20(&w.dcid), "datagram {} names {}, get_destination_id is {:?}", vrf::hex(&b), vrf::hex(&w.dcid), h.get_destination_id());
        }
    }
    Ok(())
}

fn c13(g: &mut G) -> V {
    let b = if g.one_in(4) { g.blob() } else { header_bytes(g) };
    vrf::limit((128 << 10) + 512 * b.len());
    if let Ok(h) = next_header_from_stream(&mut make_result_stream(&b)) {
        let _ = h.get_packet_type();
        let _ = h.get_destination_id();
        match h { PacketHeader::Long(x) => { let _ = x.to_bytes(); } PacketHeader::Short(x) => { let _ = x.to_bytes(); } }
    }
    Ok(())
}

fn c07(g: &mut G) -> V { c07_pn(g)?; c07_long(g)?; c07_short(g) }

fn c07_pn(g: &mut G) -> V {
    let mask: [u8; 5] = g.arr();
    // packet number bytes
    let n = g.below(7) as usize;
    let b = g.bytes(n);
    let mut x = b.clone();
    let r = xor_pn_protection(&mut x, &mask);
    vcheck!(r.is_ok() == (n <= 4), "xor_pn_protection of {} bytes: {:?}", n, r);
    let w: Vec<u8> = if n <= 4 { (0..n).map(|i| b[i] ^ mask[i + 1]).collect() } else { b.clone() };
    vcheck!(x == w, "xor_pn_protection({}, mask {:?}) = {}", vrf::hex(&b), mask, vrf::hex(&x));
    Ok(())
}

fn c07_long(g: &mut G) -> V {
    let mask: [u8; 5] = g.arr();
    let first = 0x80 | g.u8();
    let v = g.int() as u32;
    let (d, s) = (g.cid(), g.cid());
    let prot = g.bool();
    let mut h = LongPacketHeader { header_byte: first, version: v, destination_connection_id_length: d.len() as u8, destination_connection_id: id(&d), source_connection_id_length: s.len() as u8, source_connection_id: id(&s), version_negotiation: None, is_protected: prot };
    let (mut cur, mut p) = (first, prot);
    for _ in 0..g.range(1, 5) {
        let m: [u8; 5] = if g.bool() { mask } else { g.arr() };
        if g.bool() { h.add_protection(&m); if !p { cur ^= m[0] & 0x0f; p = true; } } else { h.remove_protection(&m); if p { cur ^= m[0] & 0x0f; p = false; } }
        vcheck!(h.header_byte == cur && h.is_protected == p, "long header {:#x} (protected {}): byte {:#x}, expected {:#x}", first, prot, h.header_byte, cur);
        vcheck!(h.version == v && un(&h.destination_connection_id) == vrf::id20(&d) && un(&h.source_connection_id) == vrf::id20(&s) && h.destination_connection_id_length as usize == d.len() && h.source_connection_id_length as usize == s.len(), "protection changed another header field");
        let l = h.packet_number_length().ok();
        vcheck!(l == if p { None } else { Some((cur & 3) as usize + 1) }, "packet_number_length of byte {:#x} (protected {}) = {:?}", cur, p, l);
    }
    Ok(())
}

fn c07_short(g: &mut G) -> V {
    let mask: [u8; 5] = g.arr();
    let prot = g.bool();
    let first = 0x7f & g.u8();
    let d = g.bytes(8);
    let mut h = ShortPacketHeader { header_byte: first, destination_connection_id: id(&d), is_protected: prot };
    let (mut cur, mut p) = (first, prot);
    for _ in 0..g.range(1, 5) {
        let m: [u8; 5] = if g.bool() { mask } else { g.arr() };
        if g.bool() { h.add_protection(&m); if !p { cur ^= m[0] & 0x1f; p = true; } } else { h.remove_protection(&m); if p { cur ^= m[0] & 0x1f; p = false; } }
        vcheck!(h.header_byte == cur && h.is_protected == p, "short header {:#x} (protected {}): byte {:#x}, expected {:#x}", first, prot, h.header_byte, cur);
        vcheck!(un(&h.destination_connection_id) == vrf::id20(&d), "protection changed the destination id");
        let (l, rb, kp) = (h.packet_number_length().ok(), h.reserved_bits().ok(), h.key_phase().ok());
        vcheck!(l == if p { None } else { Some((cur & 3) as usize + 1) }, "short packet_number_length of {:#x} (protected {}) = {:?}", cur, p, l);
        vcheck!(rb == if p { None } else { Some(cur >> 3 & 3) }, "reserved_bits of {:#x} (protected {}) = {:?}", cur, p, rb);
        vcheck!(kp == if p { None } else { Some(cur & 4 != 0) }, "key_phase of {:#x} (protected {}) = {:?}", cur, p, kp);
        if !p { vcheck!(h.spin_bit().ok() == Some(cur & 0x20 != 0), "spin_bit of {:#x} = {:?}", cur, h.spin_bit()); }
    }
    Ok(())
}
