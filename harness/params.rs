// child of crate::transport_parameters
#![allow(dead_code, unused_imports)]
use super::*;
use crate::vrf::{self, *};
use crate::vcheck;

pub fn trial(p: &str, g: &mut G) -> V { match p { "C14" => c14(g), _ => Ok(()) } }

fn c14(g: &mut G) -> V {
    let x = if g.one_in(6) { g.int() } else { g.vint() };
    let d = g.blob();
    let t: [u8; 16] = g.arr();
    let v4: [u8; 4] = g.arr();
    let v6: [u8; 16] = g.arr();
    let (p4, p6) = (g.int() as u16, g.int() as u16);
    let cn = match g.below(4) { 0 => g.below(256), _ => g.below(21) } as usize;
    let c = g.bytes(cn);
    use TransportParameter as T;
    let int = |x: u64| vrf::enc_varint(x);
    let (par, idv, val): (T, u64, Option<Vec<u8>>) = match g.below(17) {
        0 => (T::OriginalDestinationConnectionId(d.clone()), 0, Some(d)),
        1 => (T::MaxIdleTimeout(x), 1, int(x)),
        2 => (T::StatelessResetToken(t), 2, Some(t.to_vec())),
        3 => (T::MaxUdpPayloadSize(x), 3, int(x)),
        4 => (T::InitialMaxData(x), 4, int(x)),
        5 => (T::InitialMaxStreamDataBidiLocal(x), 5, int(x)),
        6 => (T::InitialMaxStreamDataBidiRemote(x), 6, int(x)),
        7 => (T::InitialMaxStreamDataUni(x), 7, int(x)),
        8 => (T::InitialMaxStreamsBidi(x), 8, int(x)),
        9 => (T::InitialMaxStreamsUni(x), 9, int(x)),
        10 => (T::AckDelayExponent(x), 10, int(x)),
        11 => (T::MaxAckDelay(x), 11, int(x)),
        12 => (T::DisableActiveMigration, 12, Some(vec![])),
        13 => (T::PreferredAddress(PreferredAddress { ipv4_address: v4.into(), ipv4_port: p4, ipv6_address: v6.into(), ipv6_port: p6, connection_id: c.clone(), stateless_reset_token: t }), 13,
            Some([&v4[..], &p4.to_be_bytes(), &v6, &p6.to_be_bytes(), &[c.len() as u8], &c, &t].concat())),
        14 => (T::ActiveConnectionIdLimit(x), 14, int(x)),
        15 => (T::InitialSourceConnectionId(d.clone()), 15, Some(d)),
        _ => (T::RetrySourceConnectionId(d.clone()), 16, Some(d)),
    };
    vcheck!(par.identifier_val() == idv, "identifier of parameter {:#x} is {:#x}", idv, par.identifier_val());
    let want = val.map(|v| [&vrf::enc_varint(idv).unwrap()[..], &vrf::enc_varint(v.len() as u64).unwrap(), &v].concat());
    let got = par.serialize();
    match (got, want) {
        (Ok(a), Some(b)) => vcheck!(a == b, "parameter {:#x} (integer {:#x}) serialized as {}, expected {}", idv, x, vrf::hex(&a), vrf::hex(&b)),
        (Err(_), None) => {}
        (a, b) => return Err(format!("parameter {:#x} (integer {:#x}): serialize gave {:?}, expected {:?}", idv, x, a.map(|x| vrf::hex(&x)), b.map(|x| vrf::hex(&x)))),
    }
    Ok(())
}
