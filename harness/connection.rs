// child of crate::connection
#![allow(dead_code, unused_imports)]
use super::*;
use crate::utils::make_result_stream;
use crate::vrf::{self, *};
use crate::vcheck;

fn id(b: &[u8]) -> U160 { let b = vrf::id20(b); U160 { idx0: u32::from_be_bytes([b[0], b[1], b[2], b[3]]), idx1: b[4..].iter().fold(0u128, |a, x| a << 8 | *x as u128) } }
fn un(u: &U160) -> [u8; 20] { let mut o = [0u8; 20]; o[..4].copy_from_slice(&u.idx0.to_be_bytes()); o[4..].copy_from_slice(&u.idx1.to_be_bytes()); o }

pub fn make(c: &RC) -> Connection {
    let sp = |s: &Space| PacketNumberSpaceInfo { largest_remote_ack: s.largest_remote, largest_local_ack: s.largest_local, next_pn: s.next,
        local_tls_secrets: s.local.as_ref().map(crate::quictls::vh_secrets::make), remote_tls_secrets: s.remote.as_ref().map(crate::quictls::vh_secrets::make) };
    Connection { version: version::Version::V1, initial_pn_info: sp(&c.sp[0]), handshake_pn_info: sp(&c.sp[1]), application_pn_info: sp(&c.sp[2]),
        dcid: (id(&c.dcid), c.dcid.len()), scid: c.scid.as_ref().map(|s| (id(s), s.len())) }
}
type SpaceView = (Option<u64>, Option<u64>, u64, Option<Keys>, Option<Keys>);
/// everything observable of a connection
pub fn view(c: &Connection) -> ([SpaceView; 3], ([u8; 20], usize), Option<([u8; 20], usize)>, u32) {
    let sp = |s: &PacketNumberSpaceInfo| -> SpaceView { (s.largest_remote_ack, s.largest_local_ack, s.next_pn, s.local_tls_secrets.as_ref().map(crate::quictls::vh_secrets::view), s.remote_tls_secrets.as_ref().map(crate::quictls::vh_secrets::view)) };
    ([sp(&c.initial_pn_info), sp(&c.handshake_pn_info), sp(&c.application_pn_info)], (un(&c.dcid.0), c.dcid.1), c.scid.as_ref().map(|(a, b)| (un(a), *b)), c.get_version_field())
}
pub fn ns(i: usize) -> PacketNumberSpace { match i { 0 => PacketNumberSpace::Initial, 1 => PacketNumberSpace::Handshake, _ => PacketNumberSpace::Application } }

pub fn trial(p: &str, g: &mut G) -> V { match p { "C08" => c08(g), "C09" => c09(g), "C12" => c12(g), "C10" => c10(g), "C11" => c11(g), "C13" => c13(g), _ => Ok(()) } }

fn c08(g: &mut G) -> V { c08_trunc(g)?; c08_rec(g) }

fn c08_trunc(g: &mut G) -> V {
    // the encoding
    let pn = g.pn();
    let acked = match g.below(4) { 0 => None, 1 => Some(g.pn()), _ => { let d = if g.bool() { g.int() } else { g.below(70000) }; Some(pn.saturating_sub(d)) } };
    if let Ok(b) = truncate_pn(pn, acked) {
        vcheck!(b.len() <= 8 && !b.is_empty() && pn.to_be_bytes()[8 - b.len()..] == b[..], "truncate_pn({:#x}, {:?}) = {:?}: not the low-order bytes", pn, acked, b);
        if b.len() <= 4 {
            // any receiver between the largest acknowledged and the packet itself
            let lo = acked.unwrap_or(0);
            for _ in 0..6 {
                let l = match g.below(4) { 0 => acked, 1 => if pn > lo { Some(pn - 1) } else { acked }, 2 if acked.is_none() => None, _ => if pn > lo { Some(lo + g.below(pn - lo)) } else { acked } };
                if let Some(x) = l { if x >= pn { continue; } }
                if l.is_none() && acked.is_some() { continue; }
                let mut c = g.conn();
                let i = g.below(3) as usize;
                c.sp[i].largest_remote = l;
                let r = make(&c).reconstruct_remote_pn(ns(i), &b);
                vcheck!(matches!(r, Ok(x) if x == pn), "pn {:#x} (largest acked {:?}) is sent as {:?}; a receiver whose largest is {:?} reconstructs {:?}", pn, acked, b, l, r);
            }
        }
    } else {
        let fits = match acked { None => pn <= u32::MAX as u64, Some(a) => a < pn };
        vcheck!(!fits, "truncate_pn({:#x}, {:?}) failed", pn, acked);
    }
    Ok(())
}

fn c08_rec(g: &mut G) -> V {
    // reconstruction from arbitrary bytes
    let c = g.conn();
    let i = g.below(3) as usize;
    let n = 1 + g.below(4) as usize;
    let b = match (g.bool(), c.sp[i].largest_remote) { (true, Some(l)) => { let d = g.below(1 << 9); let x = if g.bool() { l.wrapping_add(1 << (8 * n - 1)) } else { l }.wrapping_add(d).wrapping_sub(1 << 8); x.to_be_bytes()[8 - n..].to_vec() } _ => g.bytes(n) };
    let w = vrf::decode_pn(c.sp[i].largest_remote, &b);
    let r = make(&c).reconstruct_remote_pn(ns(i), &b);
    vcheck!(matches!(r, Ok(x) if x == w), "reconstruct_remote_pn({:?}) with largest {:?} = {:?}, expected {:#x}", b, c.sp[i].largest_remote, r, w);
    Ok(())
}

fn c09(g: &mut G) -> V {
    let mut rc = g.conn();
    for s in rc.sp.iter_mut() { s.next = s.next.min((1 << 62) - 200); }
    let mut c = make(&rc);
    let mut top = [None::<u64>; 3];
    for i in 0..3 { if rc.sp[i].next > 0 { top[i] = Some(rc.sp[i].next); } }
    for step in 0..1 + g.below(40) {
        let i = g.below(3) as usize;
        let before = view(&c);
        let r = c.get_next_pn(ns(i));
        let after = view(&c);
        for j in 0..3 {
            let (a, b) = (&before.0[j], &after.0[j]);
            vcheck!(a.0 == b.0 && a.1 == b.1 && a.3 == b.3 && a.4 == b.4 && (i == j || a.2 == b.2), "get_next_pn in space {} changed space {}: {:?} to {:?}", i, j, a, b);
        }
        vcheck!(before.1 == after.1 && before.2 == after.2, "get_next_pn changed the connection ids");
        vcheck!(after.0[i].2 > before.0[i].2, "step {}: get_next_pn (result {:?}) left next_pn at {:#x}", step, r, after.0[i].2);
        if let Ok((pn, b)) = r {
            vcheck!(top[i].map(|t| pn > t).unwrap_or(true), "space {}: packet number {:#x} handed out after {:?}", i, pn, top[i]);
            vcheck!(b.len() <= 8 && pn.to_be_bytes()[8 - b.len()..] == b[..], "encoding {:?} of {:#x}", b, pn);
            top[i] = Some(pn);
        }
    }
    Ok(())
}

fn c12(g: &mut G) -> V { c12_new(g)?; c12_roles(g) }

fn c12_new(g: &mut G) -> V {
    // a new connection's initial keys, both roles
    let cid = g.cid();
    let server = g.bool();
    let c = Connection::new(server, version::Version::V1, id(&cid), cid.len()).map_err(|e| format!("Connection::new failed: {:?}", e))?;
    let v = view(&c);
    let (sk, ck) = (vrf::initial_keys(true, &cid), vrf::initial_keys(false, &cid));
    let (l, r) = if server { (sk, ck) } else { (ck, sk) };
    vcheck!(v.0[0].3.as_ref() == Some(&l) && v.0[0].4.as_ref() == Some(&r), "initial keys of a new {} for {} are {:?}", if server { "server" } else { "client" }, vrf::hex(&cid), v.0[0]);
    for i in 1..3 { vcheck!(v.0[i] == (None, None, v.0[i].2, None, None), "space {} of a new connection is {:?}", i, v.0[i]); }
    vcheck!(v.1 == (vrf::id20(&cid), cid.len()), "destination id of a new connection is {:?}", v.1);
    Ok(())
}

fn c12_roles(g: &mut G) -> V {
    let rc = g.conn();
    let c = make(&rc);
    let i = g.below(3) as usize;
    let (pn, aad, pt, sample) = (g.pn(), g.small_blob(), g.small_blob(), g.u64s(20));
    let got = c.encrypt_local_payload(ns(i), &pt, &aad, pn).ok();
    let want = rc.sp[i].local.as_ref().map(|k| vrf::seal(k, pn, &aad, &pt));
    vcheck!(got == want, "encrypt_local_payload in space {} did not use that space's local keys (set: {})", i, want.is_some());
    let ct = match &rc.sp[i].remote { Some(k) => vrf::seal(k, pn, &aad, &pt), None => g.bytes(40) };
    let got = c.decrypt_remote_payload(ns(i), &ct, &aad, pn).ok();
    vcheck!(got == rc.sp[i].remote.as_ref().map(|_| pt.clone()), "decrypt_remote_payload in space {} did not use that space's remote keys (set: {})", i, rc.sp[i].remote.is_some());
    // sealed with any other keys of this connection (or its own sending keys): must not open
    let j = g.below(6) as usize;
    let other = if j < 3 { rc.sp[j].local.clone() } else { rc.sp[j - 3].remote.clone() };
    if let Some(k) = other {
        if j != i + 3 {
            let got = c.decrypt_remote_payload(ns(i), &vrf::seal(&k, pn, &aad, &pt), &aad, pn).ok();
            vcheck!(got.is_none(), "decrypt_remote_payload in space {} opened a payload sealed with the {} keys of space {}", i, if j < 3 { "local" } else { "remote" }, j % 3);
        }
    }
    let got = c.get_local_hp_mask(ns(i), &mut make_result_stream(&sample)).ok();
    vcheck!(got == rc.sp[i].local.as_ref().map(|k| vrf::mask(&k.hp, &sample)), "get_local_hp_mask in space {} did not use that space's local keys", i);
    let got = c.get_remote_hp_mask(ns(i), &mut make_result_stream(&sample)).ok();
    vcheck!(got == rc.sp[i].remote.as_ref().map(|k| vrf::mask(&k.hp, &sample)), "get_remote_hp_mask in space {} did not use that space's remote keys", i);
    let got = c.get_local_protected_payload_len(ns(i), pt.len()).ok();
    vcheck!(got == rc.sp[i].local.as_ref().map(|_| pt.len() + 16), "get_local_protected_payload_len in space {} = {:?}", i, got);
    Ok(())
}

fn c11(g: &mut G) -> V {
    let rc = g.conn();
    let c = make(&rc);
    let i = g.below(3) as usize;
    let (pn, aad, pt) = (g.int(), g.small_blob(), g.small_blob());
    let keys: Vec<Keys> = rc.sp.iter().flat_map(|s| [s.local.clone(), s.remote.clone()]).flatten().collect();
    if let Ok(ct) = c.encrypt_local_payload(ns(i), &pt, &aad, pn) {
        vcheck!(keys.iter().any(|k| vrf::seal(k, pn, &aad, &pt) == ct), "encrypt_local_payload(space {}, pn {:#x}, aad {}, payload {}) = {}: not the AEAD of any of its keys with that packet number's nonce", i, pn, vrf::hex(&aad), vrf::hex(&pt), vrf::hex(&ct));
    }
    let mut n = pn;
    match g.below(4) { 0 => n ^= 1 << g.below(64), 1 => n &= 0xffff_ffff, 2 => n = g.int(), _ => {} }
    for k in &keys {
        let mut ct = vrf::seal(k, n, &aad, &pt);
        if g.one_in(3) { let i = g.below(ct.len() as u64) as usize; ct[i] ^= 1 << g.below(8); }
        if g.one_in(8) { let n = g.below(24) as usize; ct.truncate(n); }
        if let Ok(x) = c.decrypt_remote_payload(ns(i), &ct, &aad, pn) {
            vcheck!(keys.iter().any(|k| vrf::open(k, pn, &aad, &ct).as_ref() == Some(&x)), "decrypt_remote_payload(space {}, {}, aad {}, pn {:#x}) gave {} although it does not authenticate", i, vrf::hex(&ct), vrf::hex(&aad), pn, vrf::hex(&x));
        }
    }
    Ok(())
}

fn c10(g: &mut G) -> V {
    let rc = g.conn();
    let mut c = make(&rc);
    let (d, n) = c.get_dcid();
    vcheck!(un(&d) == vrf::id20(&rc.dcid) && n as usize == rc.dcid.len(), "get_dcid = {:?}", (d, n));
    let s = c.get_scid().ok();
    vcheck!(s.map(|(a, b)| (un(&a), b as usize)) == rc.scid.as_ref().map(|x| (vrf::id20(x), x.len())), "get_scid = {:?}", s);
    let k = g.cid();
    c.set_scid(id(&k), k.len());
    let s = c.get_scid().ok();
    vcheck!(s.map(|(a, b)| (un(&a), b as usize)) == Some((vrf::id20(&k), k.len())), "get_scid after set_scid({}) = {:?}", vrf::hex(&k), s);
    vcheck!(c.get_version_field() == 1, "version field {}", c.get_version_field());
    Ok(())
}

fn c13(g: &mut G) -> V {
    let rc = g.conn();
    let c = make(&rc);
    let i = g.below(3) as usize;
    let n = 1 + g.below(4) as usize;
    let _ = c.reconstruct_remote_pn(ns(i), &g.bytes(n));
    let (a, b, pn) = (g.small_blob(), g.small_blob(), g.pn());
    let _ = c.decrypt_remote_payload(ns(i), &a, &b, pn);
    let _ = c.get_remote_hp_mask(ns(i), &mut make_result_stream(&a));
    Ok(())
}
