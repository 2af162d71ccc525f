// child of crate::routing
#![allow(dead_code, unused_imports)]
use super::*;
use crate::vrf::{self, *};
use crate::vcheck;
use std::collections::BTreeMap;
use std::time::Duration;

fn id(b: &[u8; 20]) -> U160 { U160 { idx0: u32::from_be_bytes([b[0], b[1], b[2], b[3]]), idx1: b[4..].iter().fold(0u128, |a, x| a << 8 | *x as u128) } }

pub fn trial(p: &str, g: &mut G) -> V { match p { "C16" => if g.one_in(5) { if g.one_in(3) { accept(g, false) } else { wire(g) } } else { c16(g) }, "C12" => if g.one_in(8) { accept(g, true) } else { Ok(()) }, _ => Ok(()) } }

struct W { s: InternalQuicSocket, ids: Vec<[u8; 20]>, q: BTreeMap<[u8; 20], Vec<Vec<u8>>> }

fn world(g: &mut G) -> W {
    let s = InternalQuicSocket { socket: Mutex::new(UdpSocket::bind("127.0.0.1:0").unwrap()), streams: RwLock::new(HashMap::new()), log_traffic: RwLock::new(g.one_in(4)) };
    let mut w = W { s, ids: vec![], q: BTreeMap::new() };
    for _ in 0..g.below(5) {
        let n = match g.below(3) { 0 => 8usize, 1 => 20, _ => g.below(21) as usize };
        let b = g.bytes(n);
        let mut k = vrf::id20(&b);
        if let (true, Some(o)) = (g.one_in(3), w.ids.last()) { k = *o; let i = 12 + g.below(8) as usize; k[i] ^= 1 << g.below(8); }
        add(&mut w, k);
    }
    w
}
fn add(w: &mut W, k: [u8; 20]) {
    if w.q.contains_key(&k) { return; }
    let c = Connection::new(true, version::Version::V1, id(&k), 20).unwrap();
    w.s.streams.write().unwrap().insert(id(&k), InternalQuicStream::from_connection(c));
    w.ids.push(k);
    w.q.insert(k, vec![]);
}
fn datagram(g: &mut G, w: &W) -> Vec<u8> {
    let target = if w.ids.is_empty() || g.one_in(5) { let b = g.bytes(8); vrf::id20(&b) } else { w.ids[g.below(w.ids.len() as u64) as usize] };
    let lead = target.iter().take_while(|x| **x == 0).count();
    let n = match g.below(3) { 0 => 20, 1 => 20 - lead, _ => if lead >= 12 { 8 } else { 20 - lead } };
    let dcid = target[20 - n..].to_vec();
    let sn = g.below(21) as usize;
    let scid = g.bytes(sn);
    let h = match g.below(4) {
        0 if n <= 8 || lead >= 12 => RH { first: 0x7f & g.u8(), long: false, version: 0, dcid: target[12..].to_vec(), scid: vec![] },
        1 => RH { first: 0x80 | g.u8(), long: true, version: 0, dcid, scid },
        _ => RH { first: 0x80 | g.u8(), long: true, version: if g.bool() { 1 } else { g.int() as u32 }, dcid, scid },
    };
    let mut b = h.enc();
    let t = g.small_blob();
    b.extend(t);
    if g.one_in(4) { let n = g.len().min(4096); if n > b.len() { let m = n - b.len(); let t = g.bytes(m); b.extend(t); } }
    if g.one_in(6) { g.mutate(&mut b); }
    b.truncate(4096);
    b
}
/// where the datagram belongs: Some(Some(id)) a registered one, Some(None) nowhere, None: not determined (ids over 20 bytes)
fn target(w: &W, b: &[u8]) -> Option<Option<[u8; 20]>> {
    match vrf::parse_header(&mut R::new(b)) {
        None => Some(None),
        Some(h) if h.dcid.len() > 20 => if w.q.contains_key(&[0u8; 20]) { None } else { Some(None) },
        Some(h) => Some(Some(vrf::id20(&h.dcid)).filter(|k| w.q.contains_key(k))),
    }
}
fn drain(w: &W) -> BTreeMap<[u8; 20], Vec<Vec<u8>>> {
    let m = w.s.streams.read().unwrap();
    w.q.keys().map(|k| (*k, m.get(&id(k)).map(|s| { let mut v = vec![]; while let Ok(d) = s.receiver.try_recv() { v.push(d.data); } v }).unwrap_or_default())).collect()
}
fn settle(w: &W, what: &str) -> V {
    let d = drain(w);
    for (k, v) in &d { vcheck!(Some(v) == w.q.get(k), "{}: connection {} received {:?}, expected {:?}", what, vrf::hex(k), v.iter().map(|x| vrf::hex(x)).collect::<Vec<_>>(), w.q.get(k).map(|v| v.iter().map(|x| vrf::hex(x)).collect::<Vec<_>>())); }
    vcheck!(w.s.streams.read().unwrap().len() == w.q.len(), "{}: {} connections are registered, expected {}", what, w.s.streams.read().unwrap().len(), w.q.len());
    Ok(())
}

fn c16(g: &mut G) -> V {
    let mut w = world(g);
    let addr: SocketAddr = "127.0.0.1:9".parse().unwrap();
    for _ in 0..1 + g.below(8) {
        match g.below(8) {
            0 => { // close
                let k = if w.ids.is_empty() || g.one_in(4) { let b = g.bytes(8); vrf::id20(&b) } else { w.ids[g.below(w.ids.len() as u64) as usize] };
                settle(&w, "before closing")?;
                for v in w.q.values_mut() { v.clear(); }
                w.s.drop_connection(id(&k));
                w.q.remove(&k);
                w.ids.retain(|x| *x != k);
                for x in &w.ids { vcheck!(w.s.streams.read().unwrap().contains_key(&id(x)), "closing {} removed {}", vrf::hex(&k), vrf::hex(x)); }
                vcheck!(!w.s.streams.read().unwrap().contains_key(&id(&k)), "closing {} did not remove it", vrf::hex(&k));
            }
            1 => { let k: [u8; 20] = g.arr(); add(&mut w, k); }
            2 => { // packets of a datagram: opened with the named connection only
                let b = datagram(g, &w);
                let t = target(&w, &b);
                let r = w.s.packets_from_datagram(&InternalDatagram { data: b.clone(), addr });
                if t == Some(None) { vcheck!(r.is_err(), "packets_from_datagram({}) = {:?} though no connection is named", vrf::hex(&b), r); }
                if let Some(Some(k)) = t {
                    let m = w.s.streams.read().unwrap();
                    let c = m.get(&id(&k)).unwrap().connection.read().unwrap();
                    let want = decode_packets(&mut utils::make_result_stream(&b), &c);
                    vcheck!(format!("{:?}", r.as_ref().ok()) == format!("{:?}", want.as_ref().ok()), "packets_from_datagram({}) = {:?}, the named connection gives {:?}", vrf::hex(&b), r, want);
                }
            }
            _ => {
                let b = datagram(g, &w);
                let t = target(&w, &b);
                let r = w.s.route_datagram(InternalDatagram { data: b.clone(), addr });
                match t {
                    None => return Ok(()),
                    Some(None) => vcheck!(r.is_err(), "route_datagram({}) = {:?} though it names no connection", vrf::hex(&b), r),
                    Some(Some(k)) => { vcheck!(r.is_ok(), "route_datagram({}) = {:?} though connection {} is registered", vrf::hex(&b), r, vrf::hex(&k)); w.q.get_mut(&k).unwrap().push(b); }
                }
            }
        }
    }
    settle(&w, "at the end")
}

/// through a real socket on the loopback interface
fn wire(g: &mut G) -> V {
    let mut w = world(g);
    let to = w.s.socket.lock().unwrap().local_addr().unwrap();
    w.s.socket.lock().unwrap().set_read_timeout(Some(Duration::from_secs(5))).unwrap();
    let tx = UdpSocket::bind("127.0.0.1:0").unwrap();
    let from = tx.local_addr().unwrap();
    // exact receipt
    let b = { let n = match g.below(4) { 0 => g.below(4097) as usize, 1 => 4096, _ => g.len().min(4096) }; g.bytes(n) };
    tx.send_to(&b, to).unwrap();
    let d = w.s.recv_datagram().map_err(|e| format!("recv_datagram failed: {:?}", e))?;
    vcheck!(d.data == b && d.addr == from, "received {} from {:?}, sent {} from {:?}", vrf::hex(&d.data), d.addr, vrf::hex(&b), from);
    // datagrams before a new Initial are routed or dropped, the Initial is returned
    let mut total = 0;
    let n = if g.one_in(3) { g.below(40) } else { g.below(5) };
    let junk = g.one_in(3);
    for _ in 0..n {
        let b = if junk { let n = g.below(6) as usize; g.bytes(n) } else { datagram(g, &w) };
        total += b.len();
        if total > 40000 { break; }
        let h = vrf::parse_header(&mut R::new(&b));
        match target(&w, &b) { None => continue, Some(None) => if matches!(&h, Some(h) if h.ty() == RT::Initial) { continue; }, Some(Some(k)) => w.q.get_mut(&k).unwrap().push(b.clone()) }
        tx.send_to(&b, to).unwrap();
    }
    let fresh = loop {
        let n = g.range(8, 20) as usize;
        let k = g.bytes(n);
        if !w.q.contains_key(&vrf::id20(&k)) { let sn = g.below(21) as usize; let mut v = if g.bool() { 1 } else { g.int() as u32 }; if v == 0 { v = 1; } break RH { first: 0xc0 | (g.u8() & 0xf), long: true, version: v, dcid: k, scid: g.bytes(sn) }.enc(); }
    };
    tx.send_to(&fresh, to).unwrap();
    let d = w.s.recv_new_initial_datagram().map_err(|e| format!("recv_new_initial_datagram failed: {:?}", e))?;
    vcheck!(d.data == fresh, "recv_new_initial_datagram returned {}, expected {}", vrf::hex(&d.data), vrf::hex(&fresh));
    settle(&w, "after receiving")
}

/// Accepting (up to its unfinished rest) registers one new connection: the server side of the Initial packet's destination id.
fn accept(g: &mut G, keys: bool) -> V {
    let w = world(g);
    let to = w.s.socket.lock().unwrap().local_addr().unwrap();
    w.s.socket.lock().unwrap().set_read_timeout(Some(Duration::from_secs(5))).unwrap();
    let tx = UdpSocket::bind("127.0.0.1:0").unwrap();
    let n = match g.below(3) { 0 => 8, 1 => 20, _ => g.range(8, 20) as usize };
    let mut dcid = g.bytes(n);
    if g.one_in(3) { dcid[0] = 0; }
    if w.q.contains_key(&vrf::id20(&dcid)) { return Ok(()); }
    let sn = g.below(21) as usize;
    let scid = g.bytes(sn);
    tx.send_to(&RH { first: 0xc0 | (g.u8() & 0xf), long: true, version: 1, dcid: dcid.clone(), scid }.enc(), to).unwrap();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.s.accept()));
    if let Ok(Err(e)) = r { return Err(format!("accept failed: {:?}", e)); }
    let m = match w.s.streams.read() { Ok(m) => m, Err(e) => e.into_inner() };
    let new: Vec<&U160> = m.keys().filter(|k| !w.ids.iter().any(|x| id(x) == **k)).collect();
    if !keys {
        for x in &w.ids { vcheck!(m.contains_key(&id(x)), "accepting a connection removed {}", vrf::hex(x)); }
        vcheck!(new.len() == 1, "accepting a connection for {} registered {} new ones", vrf::hex(&dcid), new.len());
    }
    if keys && new.len() == 1 {
        let c = m[new[0]].connection.read().unwrap();
        let (sk, ck) = (vrf::initial_keys(true, &dcid), vrf::initial_keys(false, &dcid));
        let (pn, aad, pt) = (g.pn(), g.small_blob(), g.small_blob());
        let s = crate::connection::PacketNumberSpace::Initial;
        vcheck!(c.encrypt_local_payload(s, &pt, &aad, pn).ok() == Some(vrf::seal(&sk, pn, &aad, &pt)), "a connection accepted for the destination id {} does not seal with the server's initial keys for it", vrf::hex(&dcid));
        let s = crate::connection::PacketNumberSpace::Initial;
        vcheck!(c.decrypt_remote_payload(s, &vrf::seal(&ck, pn, &aad, &pt), &aad, pn).ok() == Some(pt), "a connection accepted for the destination id {} does not open with the client's initial keys for it", vrf::hex(&dcid));
    }
    Ok(())
}

/// Dropping the handle of one connection removes it and no other.
pub fn close_by_drop(g: &mut G, s: &InternalQuicSocket, close: &dyn Fn(U160)) -> V {
    let mut ids: Vec<[u8; 20]> = vec![];
    for _ in 0..1 + g.below(5) {
        let mut k: [u8; 20] = g.arr();
        if let (true, Some(o)) = (g.bool(), ids.last()) { k = *o; let i = g.below(20) as usize; k[i] ^= 1 << g.below(8); }
        if ids.contains(&k) { continue; }
        s.streams.write().unwrap().insert(id(&k), InternalQuicStream::from_connection(Connection::new(true, version::Version::V1, id(&k), 20).unwrap()));
        ids.push(k);
    }
    while !ids.is_empty() {
        let k = ids.remove(g.below(ids.len() as u64) as usize);
        close(id(&k));
        let m = s.streams.read().unwrap();
        vcheck!(!m.contains_key(&id(&k)), "dropping the handle of {} left it registered", vrf::hex(&k));
        for x in &ids { vcheck!(m.contains_key(&id(x)), "dropping the handle of {} removed {}", vrf::hex(&k), vrf::hex(x)); }
    }
    Ok(())
}
