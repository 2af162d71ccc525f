// child of crate::utils
#![allow(dead_code, unused_imports)]
use super::*;
use crate::vrf::{self, *};
use crate::vcheck;

pub fn id(b: &[u8; 20]) -> U160 {
    U160 { idx0: u32::from_be_bytes([b[0], b[1], b[2], b[3]]), idx1: b[4..].iter().fold(0u128, |a, x| a << 8 | *x as u128) }
}
pub fn un(u: &U160) -> [u8; 20] { let mut o = [0u8; 20]; o[..4].copy_from_slice(&u.idx0.to_be_bytes()); o[4..].copy_from_slice(&u.idx1.to_be_bytes()); o }

fn cmp<T: PartialEq + std::fmt::Debug>(name: &str, input: &[u8], got: Result<T, Error>, left: usize, want: Option<(T, usize)>) -> V {
    match (got, want) {
        (Ok(g), Some((w, used))) => { vcheck!(g == w && left == input.len() - used, "{} on {}: got {:?} with {} bytes left, expected {:?} with {} left", name, vrf::hex(input), g, left, w, input.len() - used); Ok(()) }
        (Err(_), None) => Ok(()),
        (g, w) => Err(format!("{} on {}: got {:?}, expected {:?}", name, vrf::hex(input), g, w)),
    }
}

pub fn trial(p: &str, g: &mut G) -> V { match p { "C01" => c01(g), "C02" => c02(g), _ => Ok(()) } }

fn c01(g: &mut G) -> V { c01_enc(g)?; let b = c01_bytes(g); c01_slice(&b)?; c01_stream(&b)?; c01_rec(&b) }

fn c01_enc(g: &mut G) -> V {
    let x = g.int();
    let e = encode_var_int(x);
    let w = vrf::enc_varint(x);
    vcheck!(e.as_ref().ok() == w.as_ref(), "encode_var_int({:#x}) = {:?}, expected {:?}", x, e, w);
    Ok(())
}

fn c01_bytes(g: &mut G) -> Vec<u8> {
    let mut b = if g.one_in(4) { g.small_blob() } else { let v = g.vint(); let mut b = g.any_varint(v); let t = g.small_blob(); if g.bool() { b.extend(t) } b };
    if g.one_in(5) { let n = g.below(b.len() as u64 + 1) as usize; b.truncate(n); }
    b
}

fn c01_slice(b: &[u8]) -> V {
    let mut r = R::new(b);
    let want = r.varint().map(|v| (v, r.p));
    match (decode_var_int(b), want) {
        (Ok((v, n)), Some((w, m))) => vcheck!(v == w && n == m, "decode_var_int({}) = ({}, {}), expected ({}, {})", vrf::hex(&b), v, n, w, m),
        (Err(_), None) => {}
        (got, w) => return Err(format!("decode_var_int({}) = {:?}, expected {:?}", vrf::hex(&b), got, w)),
    }
    Ok(())
}

fn c01_stream(b: &[u8]) -> V {
    let mut r = R::new(b);
    let want = r.varint().map(|v| (v, r.p));
    let mut s = make_result_stream(b);
    let got = var_int_from_stream(&mut s);
    cmp("var_int_from_stream", b, got, s.count(), want)
}

fn c01_rec(b: &[u8]) -> V {
    let mut r = R::new(b);
    let want = r.varint().map(|v| (v, r.p));
    let mut s = make_result_stream(b);
    let got = var_int_with_bytes_from_stream(&mut s);
    cmp("var_int_with_bytes_from_stream", &b, got, s.count(), want.map(|(v, n)| ((v, b[..n].to_vec()), n)))
}

fn c02(g: &mut G) -> V { let b = c02_bytes(g); c02_ints(&b)?; c02_var(g, &b)?; c02_slices(g, &b)?; c02_write(g)?; c02_from(g) }

fn c02_bytes(g: &mut G) -> Vec<u8> {
    let n = g.below(26) as usize;
    let mut b = g.bytes(n);
    if g.one_in(3) { let t = g.small_blob(); b.extend(t); }
    b
}

fn c02_ints(b: &[u8]) -> V {
    let mut r = R::new(b);
    macro_rules! int { ($t:ty, $n:expr) => {{
        let mut r = R::new(&b);
        let w = r.be($n).map(|v| (v as $t, $n as usize));
        match (<$t>::decode_from_bytes(&b), w) {
            (Ok(x), Some(y)) => vcheck!(x == y, "{}::decode_from_bytes({}) = {:?}, expected {:?}", stringify!($t), vrf::hex(&b), x, y),
            (Err(_), None) => {}
            (x, y) => return Err(format!("{}::decode_from_bytes({}) = {:?}, expected {:?}", stringify!($t), vrf::hex(&b), x, y)),
        }
        let mut s = make_result_stream(&b);
        let got = <$t>::from_datagram(&mut s);
        cmp(concat!(stringify!($t), "::from_datagram"), &b, got, s.count(), w)?;
    }} }
    int!(u8, 1); int!(u16, 2); int!(u32, 4); int!(u64, 8); int!(u128, 16);
    let w = r.take(20).map(|x| (id(&vrf::id20(x)), 20));
    let mut s = make_result_stream(&b);
    let got = U160::from_datagram(&mut s);
    cmp("U160::from_datagram", &b, got, s.count(), w)?;
    Ok(())
}

fn c02_var(g: &mut G, b: &[u8]) -> V {
    let k = g.below(5);
    let w = R::new(&b).be(k).map(|v| (v as u32, k as usize));
    let mut s = make_result_stream(&b);
    let got = var_u32_from_stream(&mut s, k as usize);
    cmp(&format!("var_u32_from_stream({})", k), &b, got, s.count(), w)?;
    let k = g.below(21);
    let w = R::new(&b).take(k).map(|v| (id(&vrf::id20(v)), k as usize));
    let mut s = make_result_stream(&b);
    let got = var_u160_from_stream(&mut s, k as u8);
    cmp(&format!("var_u160_from_stream({})", k), &b, got, s.count(), w)?;
    Ok(())
}

fn c02_slices(g: &mut G, b: &[u8]) -> V {
    let k = if g.one_in(3) { g.len() } else { g.below(30) as usize };
    let w = R::new(&b).take(k as u64).map(|v| (v.to_vec(), k));
    let mut s = make_result_stream(&b);
    let got = var_bytes_from_stream(&mut s, k);
    cmp(&format!("var_bytes_from_stream({})", k), &b, got, s.count(), w.clone())?;
    match (decode_bytes(&b, k), w) {
        (Ok(x), Some(y)) => vcheck!(x == y, "decode_bytes({}, {}) = {:?}", vrf::hex(&b), k, x),
        (Err(_), None) => {}
        (x, y) => return Err(format!("decode_bytes({}, {}) = {:?}, expected {:?}", vrf::hex(&b), k, x, y)),
    }
    let mut s = make_result_stream(&b);
    let got = all_bytes_from_stream(&mut s);
    cmp("all_bytes_from_stream", &b, got, s.count(), Some((b.to_vec(), b.len())))?;
    let w = R::new(&b).take(8).map(|x| (id(&vrf::id20(x)), 8));
    let mut s = make_result_stream(&b);
    let got = fixed_len_dcid_from_stream(&mut s);
    cmp("fixed_len_dcid_from_stream", &b, got, s.count(), w)?;
    Ok(())
}

fn c02_write(g: &mut G) -> V {
    let raw: [u8; 20] = g.arr();
    let u = id(&raw);
    vcheck!(u.to_bytes() == raw, "U160::to_bytes of {} = {}", vrf::hex(&raw), vrf::hex(&u.to_bytes()));
    for n in 0..=20usize {
        vcheck!(u.to_var_bytes(n) == raw[20 - n..].to_vec(), "U160::to_var_bytes({}) of {} = {}", n, vrf::hex(&raw), vrf::hex(&u.to_var_bytes(n)));
    }
    Ok(())
}

fn c02_from(g: &mut G) -> V {
    let x = g.int();
    let mut e = [0u8; 20];
    e[12..].copy_from_slice(&x.to_be_bytes());
    vcheck!(un(&U160::from(x)) == e, "U160::from({:#x}) = {:?}", x, U160::from(x));
    vcheck!(un(&U160::zero()) == [0u8; 20], "U160::zero() = {:?}", U160::zero());
    let raw: [u8; 20] = g.arr();
    let u = id(&raw);
    // ids are equal exactly when their values are
    let o: [u8; 20] = { let mut o = raw; if g.bool() { let i = g.below(20) as usize; o[i] ^= 1 << g.below(8); } o };
    vcheck!((id(&o) == u) == (o == raw), "equality of ids {} and {}", vrf::hex(&o), vrf::hex(&raw));
    Ok(())
}
