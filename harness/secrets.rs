// child of crate::quictls::secrets
#![allow(dead_code, unused_imports)]
use super::*;
use crate::utils::make_result_stream;
use crate::vrf::{self, *};
use crate::vcheck;

pub fn make(k: &Keys) -> Secrets { Secrets { cipher_suite: &cipher_suite::TLS13_AES_128_GCM_SHA256, hp: k.hp.clone(), iv: Some(k.iv.clone()), key: k.key.clone() } }
pub fn view(s: &Secrets) -> Keys { Keys { key: s.key.clone(), iv: s.iv.clone().unwrap_or_default(), hp: s.hp.clone() } }

pub fn trial(p: &str, g: &mut G) -> V { match p { "C11" => c11(g), "C12" => c12(g), "C07" => c07(g), _ => Ok(()) } }

fn c11(g: &mut G) -> V {
    let k = g.keys();
    let s = make(&k);
    let pn = g.int();
    let aad = g.small_blob();
    let pt = g.blob();
    let want = vrf::seal(&k, pn, &aad, &pt);
    let got = s.encrypt_payload(&pt, Some(&aad), pn).map_err(|e| format!("encrypt_payload failed: {:?}", e))?;
    vcheck!(got == want, "encrypt_payload(pn {:#x}, aad {}, payload {}) = {}, expected {}", pn, vrf::hex(&aad), vrf::hex(&pt), vrf::hex(&got), vrf::hex(&want));
    vcheck!(s.get_protected_payload_len(pt.len()) == want.len(), "get_protected_payload_len({}) = {}", pt.len(), s.get_protected_payload_len(pt.len()));
    let back = s.decrypt_payload(&want, Some(&aad), pn).map_err(|e| format!("decrypt_payload of a sealed payload failed: {:?}", e))?;
    vcheck!(back == pt, "decrypt_payload gave {}, expected {}", vrf::hex(&back), vrf::hex(&pt));
    // anything else must not open
    let (mut ct, mut a2, mut pn2) = (want.clone(), aad.clone(), pn);
    match g.below(5) {
        0 => { let i = g.below(ct.len() as u64) as usize; ct[i] ^= 1 << g.below(8); }
        1 => { let n = g.below(ct.len() as u64) as usize; ct.truncate(n); }
        2 => { a2.push(g.u8()); }
        3 => { pn2 ^= 1 << g.below(64); }
        _ => { let n = g.below(40) as usize; ct = g.bytes(n); }
    }
    let want = vrf::open(&k, pn2, &a2, &ct);
    let got = s.decrypt_payload(&ct, Some(&a2), pn2);
    vcheck!(got.is_ok() == want.is_some() && got.as_ref().ok() == want.as_ref(), "decrypt_payload of an altered payload {} = {:?}, expected {:?}", vrf::hex(&ct), got, want);
    Ok(())
}

fn c12(g: &mut G) -> V {
    let cid = g.cid();
    let server = g.bool();
    let s = Secrets::from_initial(server, &cid, &crate::version::Version::V1).map_err(|e| format!("from_initial failed: {:?}", e))?;
    let w = vrf::initial_keys(server, &cid);
    vcheck!(view(&s) == w, "initial keys (server: {}) of {} are {:?}, expected {:?}", server, vrf::hex(&cid), view(&s), w);
    c12_secret(g)
}

fn c12_secret(g: &mut G) -> V {
    let sec = g.u64s(32);
    let s = Secrets::from_secret(&cipher_suite::TLS13_AES_128_GCM_SHA256, &sec).map_err(|e| format!("from_secret failed: {:?}", e))?;
    vcheck!(view(&s) == vrf::secret_keys(&sec), "keys of secret {} are {:?}", vrf::hex(&sec), view(&s));
    Ok(())
}

fn c07(g: &mut G) -> V {
    let k = g.keys();
    let n = g.below(40) as usize;
    let b = g.bytes(n);
    let got = make(&k).get_header_protection_mask(&mut make_result_stream(&b));
    let want = if n >= 16 { Some(vrf::mask(&k.hp, &b)) } else { None };
    vcheck!(got.as_ref().ok() == want.as_ref() && got.is_ok() == want.is_some(), "mask of sample {} = {:?}, expected {:?}", vrf::hex(&b), got, want);
    Ok(())
}
