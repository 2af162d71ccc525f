// child of crate::quictls::cipher_suite
#![allow(dead_code, unused_imports)]
use super::*;
use crate::vrf::{self, *};
use crate::vcheck;

pub fn trial(p: &str, g: &mut G) -> V { match p { "C12" => c12(g), "C11" => c11(g), _ => Ok(()) } }

fn c12(g: &mut G) -> V {
    let secret = g.u64s(32);
    let n = match g.below(4) { 0 => 32, 1 => 16, 2 => 12, _ => g.below(300) } as usize;
    let ln = g.below(30) as usize;
    let label = g.bytes(ln);
    let cn = g.below(40) as usize;
    let ctx = if g.bool() { vec![] } else { g.bytes(cn) };
    let mut out = vec![0u8; n];
    hkdf_expand_label_sha256(&secret, &label, &ctx, &mut out).map_err(|e| format!("hkdf_expand_label failed: {:?}", e))?;
    let want = vrf::hkdf_expand(&secret, &vrf::label_info(n, &label, &ctx), n);
    vcheck!(out == want, "hkdf_expand_label(label {}, context {}, {}) = {}, expected {}", vrf::hex(&label), vrf::hex(&ctx), n, vrf::hex(&out), vrf::hex(&want));
    c12_extract(g)
}

fn c12_extract(g: &mut G) -> V {
    let (salt, ikm) = (g.small_blob(), g.small_blob());
    vcheck!(hkdf_extract_sha256(Some(&salt), &ikm) == vrf::hmac(&salt, &ikm), "hkdf_extract(salt {}, ikm {}) is wrong", vrf::hex(&salt), vrf::hex(&ikm));
    Ok(())
}

fn c11(g: &mut G) -> V {
    let k = g.keys();
    let aad = g.small_blob();
    let pt = g.blob();
    let w = vrf::seal(&k, 0, &aad, &pt);
    let c = (TLS13_AES_128_GCM_SHA256.encrypt)(&k.key, Some(&k.iv), Some(&aad), &pt).map_err(|e| format!("encrypt failed: {:?}", e))?;
    vcheck!(c == w, "the suite's encrypt gave {}, expected {}", vrf::hex(&c), vrf::hex(&w));
    let p = (TLS13_AES_128_GCM_SHA256.decrypt)(&k.key, Some(&k.iv), Some(&aad), &w).map_err(|e| format!("decrypt failed: {:?}", e))?;
    vcheck!(p == pt, "the suite's decrypt gave {}, expected {}", vrf::hex(&p), vrf::hex(&pt));
    let n = g.below(17) as usize;
    let b = g.bytes(n);
    vcheck!((TLS13_AES_128_GCM_SHA256.decrypt)(&k.key, Some(&k.iv), Some(&aad), &b).ok() == vrf::open(&k, 0, &aad, &b), "decrypt of the short payload {}", vrf::hex(&b));
    vcheck!(TLS13_AES_128_GCM_SHA256.get_protected_payload_len(pt.len()) == w.len(), "get_protected_payload_len({})", pt.len());
    Ok(())
}
