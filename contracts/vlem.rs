// The properties that join several contracts: lemmas over the specifications that the code is proved to satisfy.
use vstd::prelude::*;
use crate::vspec::*;
use crate::vmodel::*;
use crate::vpacket::*;
use crate::stubs::*;
use crate::utils::U160;
use crate::connection::*;
use crate::packet::*;
use crate::frame::*;
verus! {
// ------------------------------------------------------------------ C01, C02: integers
proof fn lemma_vacc_bev(s: Seq<u8>, k: int)
    requires 1 <= k,
    ensures vacc(s, k) + (s[0] - s[0] % 64) * pow256((k - 1) as nat) == bev(s, k),
    decreases k,
{
    if k > 1 {
        lemma_vacc_bev(s, k - 1);
        let p = pow256((k - 2) as nat) as int;
        let t = (s[0] - s[0] % 64) as int;
        assert(pow256((k - 1) as nat) == 256 * p);
        assert(t * (256 * p) == (t * p) * 256) by (nonlinear_arith);
    } else {
        assert(bev(s, 0) == 0);
        assert(bev(s, 1) == bev(s, 0) * 256 + s[0] as nat);
        assert(pow256(0) == 1) by (compute);
    }
}
proof fn lemma_bev_top(s: Seq<u8>, k: int)
    requires 1 <= k,
    ensures s[0] * pow256((k - 1) as nat) <= bev(s, k) < (s[0] + 1) * pow256((k - 1) as nat),
    decreases k,
{
    if k > 1 {
        lemma_bev_top(s, k - 1);
        let p = pow256((k - 2) as nat) as int;
        let b = s[0] as int;
        assert(pow256((k - 1) as nat) == 256 * p);
        assert(b * (256 * p) == (b * p) * 256) by (nonlinear_arith);
        assert((b + 1) * (256 * p) == ((b + 1) * p) * 256) by (nonlinear_arith);
    } else {
        assert(bev(s, 0) == 0);
        assert(bev(s, 1) == bev(s, 0) * 256 + s[0] as nat);
        assert(pow256(0) == 1) by (compute);
    }
}
/// reading a big-endian integer that was written
pub broadcast proof fn rt_int(x: nat, n: nat, r: Seq<u8>)
    requires x < pow256(n),
    ensures #[trigger] p_int(be_bytes(x, n) + r, n) == Some((x, r)),
{
    lemma_be_bytes_len(x, n);
    lemma_be_of_be_bytes(x, n);
    lemma_bev_ext(be_bytes(x, n), be_bytes(x, n) + r, n as int);
    assert((be_bytes(x, n) + r).skip(n as int) =~= r);
}
/// C01: every value below 2^62 survives encoding and decoding, whatever follows it
pub broadcast proof fn rt_varint(x: nat, r: Seq<u8>)
    requires varint_ok(x),
    ensures #[trigger] p_varint(e_varint(x) + r) == Some((x as u64, r)),
{
    let n: nat = if x < 0x40 { 1 } else if x < 0x4000 { 2 } else if x < 0x4000_0000 { 4 } else { 8 };
    let v: nat = if n == 1 { x } else if n == 2 { x + 0x4000 } else if n == 4 { x + 0x8000_0000 } else { x + 0xc000_0000_0000_0000 };
    let s = e_varint(x) + r;
    lemma_pow256_vals();
    lemma_be_bytes_len(v, n);
    lemma_be_of_be_bytes(v, n);
    lemma_bev_ext(be_bytes(v, n), s, n as int);
    lemma_bev_top(s, n as int);
    lemma_vacc_bev(s, n as int);
    assert(s.skip(n as int) =~= r);
}
/// C01: the encoding is the shortest one
pub proof fn lemma_varint_len(x: nat)
    requires varint_ok(x),
    ensures e_varint(x).len() == if x < 0x40 { 1nat } else if x < 0x4000 { 2 } else if x < 0x4000_0000 { 4 } else { 8 },
{
    broadcast use lemma_be_bytes_len_b;
}
pub broadcast proof fn rt_type(t: u8, r: Seq<u8>)
    requires t < 0x40,
    ensures #[trigger] p_varint(seq![t] + r) == Some((t as u64, r)),
{
    let s = seq![t] + r;
    assert(s.skip(1) =~= r);
    assert(vacc(s, 1) == t % 64);
}
pub broadcast proof fn rt_bytes(d: Seq<u8>, n: nat, r: Seq<u8>)
    requires n == d.len(),
    ensures #[trigger] p_bytes(d + r, n) == Some((d, r)),
{
    assert((d + r).take(n as int) =~= d);
    assert((d + r).skip(n as int) =~= r);
}
pub broadcast proof fn rt_byte(b: u8, r: Seq<u8>)
    ensures #[trigger] p_int(seq![b] + r, 1) == Some((b as nat, r)),
{
    let s = seq![b] + r;
    assert(s.skip(1) =~= r);
    assert(bev(s, 1) == bev(s, 0) * 256 + s[0] as nat);
}
pub broadcast group group_rt { rt_int, rt_varint, rt_type, rt_bytes, rt_byte, lemma_assoc, lemma_add_empty }

// ------------------------------------------------------------------ C05: frames
/// a frame whose redundant fields agree: the ones the constructors make and the parser returns
pub open spec fn frame_ok(f: FrameV) -> bool {
    match f {
        FrameV::Ack { largest, delay, count, first, ranges, ecn } => count == ranges.len(),
        FrameV::Crypto { offset, length, data } => length == data.len(),
        FrameV::NewToken { length, token } => length == token.len(),
        FrameV::Stream { id, offset, length, data, fin } => length == data.len(),
        FrameV::NewConnectionId { seq, retire, length, cid, token } => 1 <= length <= 20 && cid < pow256(length as nat),
        FrameV::Close { code, ty, length, reason, app } => length == reason.len() && (app <==> ty is None),
        _ => true,
    }
}
pub proof fn rt_ranges(rs: Seq<(u64, u64)>, r: Seq<u8>)
    requires ranges_ok(rs),
    ensures p_ranges(e_ranges(rs) + r, rs.len()) == Some((rs, r)),
    decreases rs.len(),
{
    broadcast use group_rt;
    if rs.len() > 0 {
        let x = rs.last();
        assert(vok(x.0) && vok(x.1)) by { let i = rs.len() - 1; assert(rs[i] == x); }
        let tail = e_varint(x.0 as nat) + (e_varint(x.1 as nat) + r);
        assert(ranges_ok(rs.drop_last()));
        rt_ranges(rs.drop_last(), tail);
        assert(e_ranges(rs) + r == e_ranges(rs.drop_last()) + tail);
        assert(p_varint2(tail) == Some((x, r)));
        assert(rs.drop_last().push(x) =~= rs);
        assert(p_ranges(e_ranges(rs) + r, rs.len()) == Some((rs.drop_last().push(x), r)));
    } else {
        assert(rs =~= Seq::empty());
    }
}
/// C05: what is written is read back, and nothing after it is touched
#[verifier::rlimit(120)]
pub proof fn rt_frame(f: FrameV, last: bool, r: Seq<u8>)
    requires frame_ok(f), encodable(f, last), last && f is Stream ==> r.len() == 0,
    ensures p_frame(e_frame(f, last) + r) == Some((f, r)),
{
    hide(p_varint); hide(e_varint); hide(be_bytes); hide(p_int); hide(p_bytes); hide(p_ranges); hide(e_ranges);
    broadcast use group_rt;
    lemma_pow256_vals();
    let s = e_frame(f, last) + r;
    match f {
        FrameV::Ack { largest, delay, count, first, ranges, ecn } => {
            let t = if ecn is Some { 0x03u8 } else { 0x02u8 };
            let tail = e_ecn(ecn) + r;
            rt_ranges(ranges, tail);
            let s4 = e_ranges(ranges) + tail;
            let s1 = e_varint(largest as nat) + (e_varint(delay as nat) + (e_varint(count as nat) + (e_varint(first as nat) + s4)));
            assert(s == seq![t] + s1);
            assert(p_varint(s) == Some((t as u64, s1)));
            assert(p_varint3(s1) == Some(((largest, delay, count), e_varint(first as nat) + s4)));
            if ecn is Some {
                let (a, b, c) = ecn->0;
                assert(tail == e_varint(a as nat) + (e_varint(b as nat) + (e_varint(c as nat) + r)));
                assert(p_varint3(tail) == Some(((a, b, c), r)));
            } else {
                assert(tail == r);
            }
        },
        FrameV::Stream { id, offset, length, data, fin } => {
            let t = stream_type(offset != 0, !last, fin);
            let dr = data + r;
            let s3 = if last { dr } else { e_varint(length as nat) + dr };
            let s2 = if offset != 0 { e_varint(offset as nat) + s3 } else { s3 };
            let s1 = e_varint(id as nat) + s2;
            assert(s == seq![t] + s1);
            assert(p_varint(s) == Some((t as u64, s1)));
            assert(p_varint(s1) == Some((id, s2)));
            if last { assert(dr =~= data); assert(data.skip(data.len() as int) =~= r); }
            else { assert(p_lv(s3) == Some(((length, data), r))); }
        },
        FrameV::Crypto { offset, length, data } => {
            let s2 = e_varint(length as nat) + (data + r);
            assert(s == seq![0x06u8] + (e_varint(offset as nat) + s2));
            assert(p_lv(s2) == Some(((length, data), r)));
        },
        FrameV::NewToken { length, token } => {
            let s2 = e_varint(length as nat) + (token + r);
            assert(s == seq![0x07u8] + s2);
            assert(p_lv(s2) == Some(((length, token), r)));
        },
        FrameV::NewConnectionId { seq, retire, length, cid, token } => {
            let s3 = be_bytes(cid, length as nat) + (be_bytes(token as nat, 16) + r);
            let s2 = seq![length] + s3;
            let s1 = e_varint(seq as nat) + (e_varint(retire as nat) + s2);
            assert(s == seq![0x18u8] + s1);
            assert(p_varint2(s1) == Some(((seq, retire), s2)));
            assert(p_int(s2, 1) == Some((length as nat, s3)));
            assert(token < pow256(16));
        },
        FrameV::Close { code, ty, length, reason, app } => {
            let s3 = e_varint(length as nat) + (reason + r);
            let s2 = if ty is Some { e_varint(ty->0 as nat) + s3 } else { s3 };
            let s1 = e_varint(code as nat) + s2;
            assert(s == seq![if app { 0x1du8 } else { 0x1cu8 }] + s1);
            assert(p_varint(s1) == Some((code, s2)));
            assert(p_lv(s3) == Some(((length, reason), r)));
        },
        _ => {},
    }
}
pub open spec fn e_from(fs: Seq<FrameV>, df: bool, i: int) -> Seq<u8>
    decreases fs.len() - i,
{
    if i < 0 || i >= fs.len() { Seq::empty() } else { e_frame(fs[i], df && i == fs.len() - 1) + e_from(fs, df, i + 1) }
}
proof fn lemma_e_from(fs: Seq<FrameV>, df: bool, n: nat)
    requires n <= fs.len(),
    ensures e_frames(fs, df) == e_frames_n(fs, df, n) + e_from(fs, df, n as int),
    decreases fs.len() - n,
{
    broadcast use group_cat;
    if n < fs.len() {
        lemma_e_from(fs, df, n + 1);
        assert(e_frames_n(fs, df, n + 1) == e_frames_n(fs, df, n) + e_frame(fs[n as int], df && n + 1 == fs.len()));
    }
}
pub open spec fn frames_ok(fs: Seq<FrameV>) -> bool { forall|i: int| 0 <= i < fs.len() ==> frame_ok(#[trigger] fs[i]) }
proof fn lemma_e_frame_len(f: FrameV, last: bool)
    ensures e_frame(f, last).len() > 0,
{}
proof fn rt_from(fs: Seq<FrameV>, df: bool, i: int)
    requires 0 <= i <= fs.len(), frames_ok(fs), all_encodable(fs, df),
    ensures p_frames(e_from(fs, df, i)) == Some(fs.skip(i)),
    decreases fs.len() - i,
{
    hide(p_frame); hide(e_frame); hide(frame_ok); hide(encodable);
    if i < fs.len() {
        let last = df && i == fs.len() - 1;
        let r = e_from(fs, df, i + 1);
        rt_from(fs, df, i + 1);
        rt_frame(fs[i], last, r);
        lemma_e_frame_len(fs[i], last);
        assert(seq![fs[i]] + fs.skip(i + 1) =~= fs.skip(i));
    } else {
        assert(fs.skip(i) =~= Seq::empty());
        assert(e_from(fs, df, i) =~= Seq::empty());
    }
}
/// C05: a sequence of frames is read back, in order
pub proof fn rt_frames(fs: Seq<FrameV>, df: bool)
    requires frames_ok(fs), all_encodable(fs, df),
    ensures p_frames(e_frames(fs, df)) == Some(fs),
{
    broadcast use group_cat;
    lemma_e_from(fs, df, 0);
    rt_from(fs, df, 0);
    assert(fs.skip(0) =~= fs);
}

// ------------------------------------------------------------------ C06: headers
pub broadcast proof fn rt_u8(b: u8, r: Seq<u8>)
    ensures #[trigger] p_u8(seq![b] + r) == Some((b, r)),
{
    assert((seq![b] + r).skip(1) =~= r);
}
pub open spec fn long_ok(h: LongV) -> bool {
    if h.version == 0 { h.dcid.len() <= 255 && h.scid.len() <= 255 } else { h.dcid.len() <= 20 && h.scid.len() <= 20 }
}
/// a header that was written is read back
pub proof fn rt_long(h: LongV, r: Seq<u8>)
    requires long_ok(h),
    ensures p_long(long_tail(h) + r, h.first) == Some((h, r)),
{
    hide(p_int); hide(be_bytes); hide(p_u8); hide(p_bytes);
    broadcast use {group_rt, rt_u8};
    lemma_pow256_vals();
    let s2 = seq![h.scid.len() as u8] + (h.scid + r);
    let s1 = seq![h.dcid.len() as u8] + (h.dcid + s2);
    assert(long_tail(h) + r == be_bytes(h.version as nat, 4) + s1);
    assert(p_cid(s1, h.version == 0) == Some((h.dcid, s2)));
    assert(p_cid(s2, h.version == 0) == Some((h.scid, r)));
}
/// C06: a header that was read is written back as the bytes it was read from
pub proof fn lemma_header_wire(s: Seq<u8>)
    ensures match p_header(s) {
        Some((HeaderV::Long(h), r)) => e_long(h) + r == s && h.first == s[0] && long_ok(h),
        Some((HeaderV::Short(h), r)) => e_short(h) + r == s && h.first == s[0] && h.dcid.len() == 8,
        None => true,
    },
{
    hide(be_bytes);
    hide(bev);
    broadcast use lemma_bev_bound_lit;
    match p_header(s) {
        Some((HeaderV::Long(h), r)) => {
            let s0 = s.skip(1);
            let s1 = s0.skip(4);
            lemma_be_bytes_of_bev(s0, 4);
            assert(h.version as nat == bev(s0, 4));
            assert(s0 =~= s0.take(4) + s1);
            let n = s1[0] as int;
            let s2 = s1.skip(1).skip(n);
            assert(h.dcid == s1.skip(1).take(n));
            assert(s1 =~= seq![s1[0]] + (h.dcid + s2));
            let m = s2[0] as int;
            assert(h.scid == s2.skip(1).take(m));
            assert(s2 =~= seq![s2[0]] + (h.scid + r));
            assert(s =~= seq![s[0]] + s0);
            assert(h.dcid.len() == n && h.scid.len() == m);
            assert(s0.take(4) == be_bytes(h.version as nat, 4));
            let c = seq![s2[0]] + h.scid;
            assert(c + r == s2) by { lemma_assoc(seq![s2[0]], h.scid, r); }
            let d = h.dcid + c;
            assert(d + r == h.dcid + s2) by { lemma_assoc(h.dcid, c, r); }
            let e = seq![s1[0]] + d;
            assert(e + r == s1) by { lemma_assoc(seq![s1[0]], d, r); }
            let f = s0.take(4) + e;
            assert(f + r == s0) by { lemma_assoc(s0.take(4), e, r); }
            assert(long_tail(h) == f);
            assert((seq![s[0]] + f) + r == s) by { lemma_assoc(seq![s[0]], f, r); }
            assert(e_long(h) == seq![s[0]] + f);
        },
        Some((HeaderV::Short(h), r)) => { assert(e_short(h) + r =~= s); },
        None => {},
    }
}

// ------------------------------------------------------------------ C07: header protection
pub proof fn lemma_mask_byte(b: u8, m: u8)
    ensures
        (b ^ (m & 0x0f)) ^ (m & 0x0f) == b, (b ^ (m & 0x1f)) ^ (m & 0x1f) == b,
        (b ^ (m & 0x0f)) / 16 == b / 16, (b ^ (m & 0x1f)) / 32 == b / 32,
{
    assert((b ^ (m & 0x0f)) ^ (m & 0x0f) == b) by (bit_vector);
    assert((b ^ (m & 0x1f)) ^ (m & 0x1f) == b) by (bit_vector);
    assert((b ^ (m & 0x0f)) / 16 == b / 16) by (bit_vector);
    assert((b ^ (m & 0x1f)) / 32 == b / 32) by (bit_vector);
}
pub proof fn lemma_mask_pn(b: Seq<u8>, mask: Seq<u8>, n: nat)
    requires n <= b.len(), n < mask.len(),
    ensures pn_xor(pn_xor(b, mask, n), mask, n) == b.take(n as int), pn_xor(b, mask, n).len() == n,
{
    assert forall|i: int| 0 <= i < n implies #[trigger] pn_xor(pn_xor(b, mask, n), mask, n)[i] == b[i] by {
        let x = b[i];
        let y = mask[i + 1];
        assert((x ^ y) ^ y == x) by (bit_vector);
    }
    assert(pn_xor(pn_xor(b, mask, n), mask, n) =~= b.take(n as int));
}

// ------------------------------------------------------------------ C08: packet numbers
/// decoding finds the number within half a window of the expected one (RFC 9000, A.3)
pub proof fn lemma_decode_near(largest: u64, pn: u64, n: nat)
    requires 1 <= n <= 4, pn < max_pn(), largest < max_pn(), 2 * (pn - largest - 1) <= pow256(n), 2 * (largest + 1 - pn) < pow256(n),
    ensures decode_pn(Some(largest), pn as nat % pow256(n), n) == pn,
{
    lemma_pow256_vals();
    let w = pow256(n) as int;
    let e = largest as int + 1;
    let t = pn as int % w;
    let q = pn as int / w;
    let a = e / w;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(pn as int, w);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(e, w);
    assert(w * q == q * w && w * a == a * w) by (nonlinear_arith);
    // |pn - e| <= w/2, so the two quotients differ by at most one
    assert(q <= a + 1) by (nonlinear_arith) requires q * w + t == pn, a * w + e % w == e, 0 <= t < w, 0 <= e % w < w, 2 * (pn - e) <= w, w > 0;
    assert(a <= q + 1) by (nonlinear_arith) requires q * w + t == pn, a * w + e % w == e, 0 <= t < w, 0 <= e % w < w, 2 * (e - pn) < w, w > 0;
    assert((a + 1) * w == a * w + w && (a - 1) * w == a * w - w) by (nonlinear_arith);
    assert(w % 2 == 0);
    assert(q >= 0);
    assert(q * w >= 0) by (nonlinear_arith) requires q >= 0, w > 0;
}
/// C08: whoever has received at least the acknowledged packets recovers the number
pub proof fn lemma_pn_recovered(pn: u64, acked: Option<u64>, b: Seq<u8>, largest: Option<u64>)
    requires
        pn_trunc_ok(pn, acked, b), b.len() <= 4, pn < max_pn(),
        acked is Some ==> largest is Some && acked->0 <= largest->0, largest is Some ==> largest->0 < pn,
    ensures decode_pn(largest, be(b), b.len()) == pn, be(b) == pn as nat % pow256(b.len()),
{
    lemma_pow256_vals();
    let n = b.len();
    lemma_be_of_be_bytes(pn as nat, n);
    match largest {
        None => {},
        Some(l) => {
            if acked is Some { lemma_decode_near(l, pn, n); }
            else {
                let w = pow256(n) as int;
                vstd::arithmetic::div_mod::lemma_small_mod(pn as nat, pow256(n));
                vstd::arithmetic::div_mod::lemma_basic_div(l as int + 1, w);
            }
        },
    }
}

// ------------------------------------------------------------------ C11: nonces
pub proof fn lemma_nonce_unique(iv: Seq<u8>, a: u64, b: u64)
    requires iv.len() == 12, a != b,
    ensures nonce(iv, a) != nonce(iv, b),
{
    lemma_pow256_vals();
    lemma_pow256_mono(8, 12);
    if nonce(iv, a) == nonce(iv, b) {
        lemma_be_bytes_len(a as nat, 12);
        lemma_be_bytes_len(b as nat, 12);
        assert forall|i: int| 0 <= i < 12 implies be_bytes(a as nat, 12)[i] == be_bytes(b as nat, 12)[i] by {
            let x = be_bytes(a as nat, 12)[i];
            let y = be_bytes(b as nat, 12)[i];
            let v = iv[i];
            assert(nonce(iv, a)[i] == v ^ x);
            assert(nonce(iv, b)[i] == v ^ y);
            assert((v ^ x) == (v ^ y) ==> x == y) by (bit_vector);
        }
        assert(be_bytes(a as nat, 12) =~= be_bytes(b as nat, 12));
        lemma_be_bytes_inj(a as nat, b as nat, 12);
    }
}
/// C11: opening inverts sealing
pub proof fn lemma_unseal_seal(k: SecV, pn: u64, aad: Seq<u8>, pt: Seq<u8>)
    ensures unseal(k, pn, aad, seal(k, pn, aad, pt)) == Some(pt), seal(k, pn, aad, pt).len() == pt.len() + 16,
{
    let iv = nonce(k.iv, pn);
    let ct = gcm_ct(k.key, iv, pt);
    axiom_gcm(k.key, iv, aad, pt);
    axiom_gcm(k.key, iv, aad, ct);
    let p = seal(k, pn, aad, pt);
    assert(p.take(p.len() - 16) =~= ct);
    assert(p.skip(p.len() - 16) =~= gcm_tag(k.key, iv, aad, ct));
}

// ------------------------------------------------------------------ C12: keys
/// C12: what one side sends with, the other receives with
pub proof fn lemma_initial_symmetric(server: Connection, client: Connection, dcid: (U160, usize), v: crate::version::Version)
    requires
        local_keys(server, PacketNumberSpace::Initial) == Some(initial_keys(true, be_bytes(cid_nat(dcid.0), dcid.1 as nat), v)),
        remote_keys(server, PacketNumberSpace::Initial) == Some(initial_keys(false, be_bytes(cid_nat(dcid.0), dcid.1 as nat), v)),
        local_keys(client, PacketNumberSpace::Initial) == Some(initial_keys(false, be_bytes(cid_nat(dcid.0), dcid.1 as nat), v)),
        remote_keys(client, PacketNumberSpace::Initial) == Some(initial_keys(true, be_bytes(cid_nat(dcid.0), dcid.1 as nat), v)),
    ensures
        local_keys(server, PacketNumberSpace::Initial) == remote_keys(client, PacketNumberSpace::Initial),
        local_keys(client, PacketNumberSpace::Initial) == remote_keys(server, PacketNumberSpace::Initial),
{}

// ------------------------------------------------------------------ C10: packets
pub broadcast proof fn rt_wire_varint(x: nat, r: Seq<u8>)
    requires varint_ok(x),
    ensures #[trigger] wire_varint(e_varint(x) + r) == e_varint(x),
{
    rt_varint(x, r);
    let s = e_varint(x) + r;
    assert(s.len() >= vlen(s[0]));
    assert(s.skip(vlen(s[0]) as int) == r);
    assert(s.skip(vlen(s[0]) as int).len() == s.len() - vlen(s[0]));
    assert(s.take(vlen(s[0]) as int) =~= e_varint(x));
}
/// the protected part
pub proof fn rt_sealed(k: SecV, largest: Option<u64>, first: u8, bits: u8, hd: Seq<u8>, pn: u64, pnb: Seq<u8>, pt: Seq<u8>, frames: Seq<FrameV>, r: Seq<u8>)
    requires
        bits == 0x0f || bits == 0x1f, pn_len(first) == pnb.len(), pt.len() + pnb.len() >= 4, varint_ok(length_v(pt, pnb)),
        decode_pn(largest, be(pnb), pnb.len()) == pn, p_frames(pt) == Some(frames),
    ensures
        ({
            let ct = seal(k, pn, seq![first] + (hd + pnb), pt);
            let mask = hp_mask_v(k, ct.skip(4 - pnb.len()).take(16));
            let s = pn_xor(pnb, mask, pnb.len()) + ct;
            &&& p_sealed(Some(k), largest, first ^ (mask[0] & bits), true, bits, hd, s + r, Some(length_v(pt, pnb) as u64)) == Some((OpenV { first, pn, pnb, frames }, r))
            &&& p_sealed(Some(k), largest, first ^ (mask[0] & bits), true, bits, hd, s, None) == Some((OpenV { first, pn, pnb, frames }, Seq::<u8>::empty()))
        }),
{
    hide(p_frames); hide(seal); hide(unseal); hide(decode_pn);
    let n = pnb.len();
    let ct = seal(k, pn, seq![first] + (hd + pnb), pt);
    lemma_unseal_seal(k, pn, seq![first] + (hd + pnb), pt);
    let sample = ct.skip(4 - n).take(16);
    axiom_aes(k.hp, sample);
    let mask = hp_mask_v(k, sample);
    lemma_mask_byte(first, mask[0]);
    lemma_mask_pn(pnb, mask, n);
    let x = pn_xor(pnb, mask, n);
    assert(pnb.take(n as int) =~= pnb);
    assert forall|r: Seq<u8>| #![trigger (x + ct) + r] ({
        let s = (x + ct) + r;
        &&& s.len() >= 20 && s.skip(4).take(16) == sample && pn_xor(s, mask, n) == pnb
        &&& s.skip(n as int).take(ct.len() as int) == ct && s.skip((n + ct.len()) as int) == r
    }) by {
        let s = (x + ct) + r;
        assert(s.skip(4).take(16) =~= sample);
        assert(pn_xor(s, mask, n) =~= pn_xor(x, mask, n));
        assert(s.skip(n as int).take(ct.len() as int) =~= ct);
        assert(s.skip((n + ct.len()) as int) =~= r);
    }
    let e = Seq::<u8>::empty();
    assert((x + ct) + e =~= x + ct);
    assert(((x + ct) + e).len() == n + ct.len());
    assert(((x + ct) + r).len() >= n + ct.len());
    assert(length_v(pt, pnb) == n + ct.len());
}

pub open spec fn recoverable(c: Connection, sp: PacketNumberSpace, pn: u64, pnb: Seq<u8>) -> bool {
    decode_pn(space(c, sp).largest_remote_ack, be(pnb), pnb.len()) == pn
}
proof fn lemma_sealed_first(k: SecV, first: u8, bits: u8, hd: Seq<u8>, pn: u64, pnb: Seq<u8>, pt: Seq<u8>, r: Seq<u8>)
    requires bits == 0x0f || bits == 0x1f, pnb.len() <= 4,
    ensures ({
        let ct = seal(k, pn, seq![first] + (hd + pnb), pt);
        let mask = hp_mask_v(k, ct.skip(4 - pnb.len()).take(16));
        e_sealed(k, first, bits, hd, pn, pnb, pt) + r == seq![first ^ (mask[0] & bits)] + (hd + ((pn_xor(pnb, mask, pnb.len()) + ct) + r))
    }),
{
    hide(seal); hide(hp_mask_v); hide(pn_xor);
    broadcast use lemma_assoc;
}
/// C10: an Initial packet, alone or followed by others, is recovered exactly by a peer with the matching keys
pub proof fn rt_initial(c: Connection, k: SecV, h: LongV, token: Seq<u8>, pn: u64, pnb: Seq<u8>, frames: Seq<FrameV>, r: Seq<u8>)
    requires
        remote_keys(c, PacketNumberSpace::Initial) == Some(k), recoverable(c, PacketNumberSpace::Initial, pn, pnb),
        sendable(Some(k), pnb, frames), varint_ok(token.len()), frames_ok(frames),
        h.version != 0, long_ok(h), pn_len(h.first) == pnb.len(), h.first / 16 == 0x0c,
    ensures
        p_initial(c, e_initial(k, h, token, pn, pnb, frames) + r) == Some((PktV::Initial { h, token, pn, pnb, frames }, r)),
        p_packet(c, e_initial(k, h, token, pn, pnb, frames) + r) == Some((PktV::Initial { h, token, pn, pnb, frames }, r)),
{
    hide(p_long); hide(e_long_tail); hide(p_varint); hide(seal); hide(unseal); hide(hp_mask_v); hide(pn_xor); hide(decode_pn); hide(p_frames); hide(e_frames); hide(e_varint); hide(p_sealed);
    hide(p_bytes); hide(p_u8); hide(p_zero_rtt); hide(p_handshake); hide(p_one_rtt); hide(p_vn); hide(all_encodable); hide(frames_ok); hide(wire_varint);
    broadcast use {group_rt, rt_u8, rt_wire_varint};
    let pt = e_frames(frames, false);
    let hd = long_tail(h) + (e_varint(token.len()) + (token + e_varint(length_v(pt, pnb))));
    rt_frames(frames, false);
    let ct = seal(k, pn, seq![h.first] + (hd + pnb), pt);
    let mask = hp_mask_v(k, ct.skip(4 - pnb.len()).take(16));
    let s3 = (pn_xor(pnb, mask, pnb.len()) + ct) + r;
    let f = h.first ^ (mask[0] & 0x0f);
    lemma_sealed_first(k, h.first, 0x0f, hd, pn, pnb, pt, r);
    rt_sealed(k, space(c, PacketNumberSpace::Initial).largest_remote_ack, h.first, 0x0f, hd, pn, pnb, pt, frames, r);
    lemma_mask_byte(h.first, mask[0]);
    let s2 = e_varint(length_v(pt, pnb)) + s3;
    let s1 = e_varint(token.len()) + (token + s2);
    let s0 = long_tail(h) + s1;
    let s = e_initial(k, h, token, pn, pnb, frames) + r;
    assert(s == seq![f] + s0);
    assert(p_u8(s) == Some((f, s0)));
    let hf = LongV { first: f, ..h };
    rt_long(hf, s1);
    assert(long_tail(hf) == long_tail(h));
    assert(p_long(s0, f) == Some((hf, s1)));
    assert(p_lv(s1) == Some(((token.len() as u64, token), s2)));
    assert(p_varint(s2) == Some((length_v(pt, pnb) as u64, s3)));
    assert(wire_varint(s1) == e_varint(token.len()));
    assert(wire_varint(s2) == e_varint(length_v(pt, pnb)));
    assert(LongV { first: h.first, ..hf } == h);
    assert((f / 16) % 4 == 0);
    assert(p_header(s) == Some((HeaderV::Long(hf), s1)));
}
pub proof fn rt_handshake(c: Connection, k: SecV, h: LongV, pn: u64, pnb: Seq<u8>, frames: Seq<FrameV>, r: Seq<u8>)
    requires
        remote_keys(c, PacketNumberSpace::Handshake) == Some(k), recoverable(c, PacketNumberSpace::Handshake, pn, pnb),
        sendable(Some(k), pnb, frames), frames_ok(frames),
        h.version != 0, long_ok(h), pn_len(h.first) == pnb.len(), h.first / 16 == 0x0e,
    ensures
        p_handshake(c, e_handshake(k, h, pn, pnb, frames) + r) == Some((PktV::Handshake { h, pn, pnb, frames }, r)),
        p_packet(c, e_handshake(k, h, pn, pnb, frames) + r) == Some((PktV::Handshake { h, pn, pnb, frames }, r)),
{
    hide(p_long); hide(e_long_tail); hide(p_varint); hide(seal); hide(unseal); hide(hp_mask_v); hide(pn_xor); hide(decode_pn); hide(p_frames); hide(e_frames); hide(e_varint); hide(p_sealed);
    hide(p_bytes); hide(p_u8); hide(p_zero_rtt); hide(p_initial); hide(p_one_rtt); hide(p_vn); hide(all_encodable); hide(frames_ok); hide(wire_varint);
    broadcast use {group_rt, rt_u8, rt_wire_varint};
    let pt = e_frames(frames, false);
    let hd = long_tail(h) + e_varint(length_v(pt, pnb));
    rt_frames(frames, false);
    let ct = seal(k, pn, seq![h.first] + (hd + pnb), pt);
    let mask = hp_mask_v(k, ct.skip(4 - pnb.len()).take(16));
    let s2 = (pn_xor(pnb, mask, pnb.len()) + ct) + r;
    let f = h.first ^ (mask[0] & 0x0f);
    lemma_sealed_first(k, h.first, 0x0f, hd, pn, pnb, pt, r);
    rt_sealed(k, space(c, PacketNumberSpace::Handshake).largest_remote_ack, h.first, 0x0f, hd, pn, pnb, pt, frames, r);
    lemma_mask_byte(h.first, mask[0]);
    let s1 = e_varint(length_v(pt, pnb)) + s2;
    let s0 = long_tail(h) + s1;
    let s = e_handshake(k, h, pn, pnb, frames) + r;
    assert(s == seq![f] + s0);
    assert(p_u8(s) == Some((f, s0)));
    let hf = LongV { first: f, ..h };
    rt_long(hf, s1);
    assert(long_tail(hf) == long_tail(h));
    assert(p_long(s0, f) == Some((hf, s1)));
    assert(p_varint(s1) == Some((length_v(pt, pnb) as u64, s2)));
    assert(wire_varint(s1) == e_varint(length_v(pt, pnb)));
    assert(LongV { first: h.first, ..hf } == h);
    assert((f / 16) % 4 == 2);
    assert(p_header(s) == Some((HeaderV::Long(hf), s1)));
}
/// C15: coalesced packets are decoded one after another
pub proof fn lemma_coalesced(c: Connection, p: PktV, a: Seq<u8>, r: Seq<u8>)
    requires p_packet(c, a + r) == Some((p, r)), a.len() > 0,
    ensures p_packets(c, a + r) == then_packets(seq![p], p_packets(c, r)),
{
    hide(p_packet);
    assert((a + r).len() > r.len());
}
/// C14: tokens have 16 bytes on the wire, addresses 4 and 16
pub proof fn lemma_token_size(t: crate::transport_parameters::TransportParameter, p: crate::transport_parameters::PreferredAddress)
    ensures
        t is StatelessResetToken ==> param_val(t).len() == 16,
        p.stateless_reset_token@.len() == 16, p.ipv4_address.o@.len() == 4, p.ipv6_address.o@.len() == 16,
        e_pref(p).len() == 41 + p.connection_id@.len(),
{
    broadcast use group_bytes;
    assert(be_bytes(p.ipv4_port as nat, 2).len() == 2 && be_bytes(p.ipv6_port as nat, 2).len() == 2);
    assert(be_bytes(p.connection_id@.len(), 1).len() == 1);
}
/// C05: what the parser returns could be written again
pub proof fn lemma_varint_parsed(s: Seq<u8>)
    ensures p_varint(s) is Some ==> varint_ok(got(p_varint(s)) as nat),
{
    broadcast use lemma_vacc_bound_lit;
}
} // verus!
