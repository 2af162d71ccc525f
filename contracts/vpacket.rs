// Specification: packets (RFC 9000, 17; RFC 9001, 5.4).
use vstd::prelude::*;
use crate::vspec::*;
use crate::stubs::*;
use crate::vmodel::*;
use crate::error::Error;
use crate::frame::*;
use crate::utils::U160;
use crate::connection::*;
use crate::packet::*;
use crate::routing::*;
use crate::stubs::stdx::sync::mpsc::Sender;
verus! {

// ------------------------------------------------------------------ headers
#[verifier::ext_equal]
pub struct LongV { pub first: u8, pub version: u32, pub dcid: Seq<u8>, pub scid: Seq<u8> }
#[verifier::ext_equal]
pub struct ShortV { pub first: u8, pub dcid: Seq<u8> }

pub open spec fn cid_v(c: U160, len: u8) -> Seq<u8> { be_bytes(cid_nat(c), len as nat) }
pub open spec fn long_v(h: LongPacketHeader) -> LongV {
    match h.version_negotiation {
        Some(x) => LongV { first: h.header_byte, version: h.version, dcid: x.destination_connection_id@, scid: x.source_connection_id@ },
        None => LongV { first: h.header_byte, version: h.version, dcid: cid_v(h.destination_connection_id, h.destination_connection_id_length),
            scid: cid_v(h.source_connection_id, h.source_connection_id_length) },
    }
}
pub open spec fn short_v(h: ShortPacketHeader) -> ShortV { ShortV { first: h.header_byte, dcid: cid_v(h.destination_connection_id, 8) } }
/// version negotiation headers keep their ids apart; other ids fit 160 bits
pub open spec fn long_wf(h: LongPacketHeader) -> bool {
    &&& h.version == 0 <==> h.version_negotiation is Some
    &&& match h.version_negotiation {
        Some(x) => h.destination_connection_id_length == x.destination_connection_id@.len() && h.source_connection_id_length == x.source_connection_id@.len(),
        None => h.destination_connection_id_length <= 20 && h.source_connection_id_length <= 20,
    }
}
/// the ids held as numbers are those of the header
pub open spec fn long_ids(h: LongPacketHeader) -> bool {
    &&& h.version != 0 ==> cid_nat(h.source_connection_id) == be(long_v(h).scid)
    &&& long_v(h).dcid.len() <= 20 ==> cid_nat(h.destination_connection_id) == be(long_v(h).dcid)
}
/// a long header after its first byte
pub open spec fn e_long_tail(version: u32, dcid: Seq<u8>, scid: Seq<u8>) -> Seq<u8> {
    be_bytes(version as nat, 4) + (seq![dcid.len() as u8] + (dcid + (seq![scid.len() as u8] + scid)))
}
pub open spec fn long_tail(v: LongV) -> Seq<u8> { e_long_tail(v.version, v.dcid, v.scid) }
pub open spec fn e_long(v: LongV) -> Seq<u8> { seq![v.first] + long_tail(v) }
pub open spec fn e_short(v: ShortV) -> Seq<u8> { seq![v.first] + v.dcid }
pub open spec fn ptype(first: u8, version: u32) -> PacketType {
    if version == 0 { PacketType::VersionNegotiation }
    else if (first / 16) % 4 == 0 { PacketType::Initial }
    else if (first / 16) % 4 == 1 { PacketType::ZeroRtt }
    else if (first / 16) % 4 == 2 { PacketType::Handshake }
    else { PacketType::Retry }
}
pub open spec fn has_protection(first: u8, version: u32) -> bool { !(ptype(first, version) is VersionNegotiation) && !(ptype(first, version) is Retry) }
pub open spec fn p_u8(s: Seq<u8>) -> Option<(u8, Seq<u8>)> { if s.len() == 0 { None } else { Some((s[0], s.skip(1))) } }
/// a connection id: its length and its bytes
pub open spec fn p_cid(s: Seq<u8>, any_len: bool) -> Option<(Seq<u8>, Seq<u8>)> {
    match p_u8(s) { None => None, Some((n, s1)) => if !any_len && n > 20 { None } else { p_bytes(s1, n as nat) } }
}
/// a long header after its first byte
pub open spec fn p_long(s: Seq<u8>, first: u8) -> Option<(LongV, Seq<u8>)> {
    match p_int(s, 4) { None => None, Some((version, s1)) =>
        match p_cid(s1, version == 0) { None => None, Some((dcid, s2)) =>
            match p_cid(s2, version == 0) { None => None, Some((scid, s3)) => Some((LongV { first, version: version as u32, dcid, scid }, s3)) } } }
}
pub open spec fn p_short(s: Seq<u8>, first: u8) -> Option<(ShortV, Seq<u8>)> {
    match p_bytes(s, 8) { None => None, Some((dcid, s1)) => Some((ShortV { first, dcid }, s1)) }
}
pub enum HeaderV { Short(ShortV), Long(LongV) }
pub open spec fn p_header(s: Seq<u8>) -> Option<(HeaderV, Seq<u8>)> {
    match p_u8(s) { None => None, Some((first, s1)) =>
        if first >= 0x80 { match p_long(s1, first) { None => None, Some((h, r)) => Some((HeaderV::Long(h), r)) } }
        else { match p_short(s1, first) { None => None, Some((h, r)) => Some((HeaderV::Short(h), r)) } } }
}
pub open spec fn header_v(h: PacketHeader) -> HeaderV {
    match h { PacketHeader::Short(x) => HeaderV::Short(short_v(x)), PacketHeader::Long(x) => HeaderV::Long(long_v(x)) }
}
pub open spec fn header_wf(h: PacketHeader) -> bool {
    match h {
        PacketHeader::Short(x) => x.is_protected && cid_nat(x.destination_connection_id) == be(short_v(x).dcid),
        PacketHeader::Long(x) => long_wf(x) && long_ids(x) && x.is_protected == has_protection(x.header_byte, x.version),
    }
}

// ------------------------------------------------------------------ header protection
pub open spec fn pn_xor(b: Seq<u8>, mask: Seq<u8>, n: nat) -> Seq<u8> { Seq::new(n, |i: int| b[i] ^ mask[i + 1]) }
pub open spec fn pn_len(first: u8) -> nat { (first % 4 + 1) as nat }

// ------------------------------------------------------------------ protected packets
pub struct OpenV { pub first: u8, pub pn: u64, pub pnb: Seq<u8>, pub frames: Seq<FrameV> }
/// The rest of a packet from its packet number on; `hd`: the header between the first byte and the packet number.
pub open spec fn p_sealed(k: Option<SecV>, largest: Option<u64>, first: u8, protected: bool, bits: u8, hd: Seq<u8>, s: Seq<u8>, length: Option<u64>) -> Option<(OpenV, Seq<u8>)> {
    match k { None => None, Some(k) =>
        if s.len() < 20 { None } else {
            let mask = hp_mask_v(k, s.skip(4).take(16));
            let first2 = if protected { first ^ (mask[0] & bits) } else { first };
            let n = pn_len(first2);
            let pnb = pn_xor(s, mask, n);
            let pn = decode_pn(largest, be(pnb), n) as u64;
            let end = match length { None => s.len() as int, Some(l) => l as int };
            if end < n || s.len() < end { None } else {
                match unseal(k, pn, seq![first2] + (hd + pnb), s.skip(n as int).take(end - n)) { None => None, Some(pt) =>
                    match p_frames(pt) { None => None, Some(frames) => Some((OpenV { first: first2, pn, pnb, frames }, s.skip(end))) } }
            }
        } }
}
/// the bytes of a variable-length integer as received
pub open spec fn wire_varint(s: Seq<u8>) -> Seq<u8> { s.take(vlen(s[0]) as int) }

#[allow(inconsistent_fields)]
pub enum PktV {
    VersionNegotiation { h: LongV, versions: Seq<u32> },
    Initial { h: LongV, token: Seq<u8>, pn: u64, pnb: Seq<u8>, frames: Seq<FrameV> },
    ZeroRtt { h: LongV, length: u64, pn: u64, pnb: Seq<u8>, frames: Seq<FrameV> },
    Handshake { h: LongV, pn: u64, pnb: Seq<u8>, frames: Seq<FrameV> },
    OneRtt { h: ShortV, pn: u64, pnb: Seq<u8>, frames: Seq<FrameV> },
    Retry,
}
pub open spec fn p_initial(c: Connection, s: Seq<u8>) -> Option<(PktV, Seq<u8>)> {
    match p_u8(s) { None => None, Some((first, s0)) =>
        match p_long(s0, first) { None => None, Some((h, s1)) =>
            match p_lv(s1) { None => None, Some(((_, token), s2)) =>
                match p_varint(s2) { None => None, Some((length, s3)) =>
                    match p_sealed(remote_keys(c, PacketNumberSpace::Initial), space(c, PacketNumberSpace::Initial).largest_remote_ack, first, has_protection(first, h.version), 0x0f,
                        long_tail(h) + (wire_varint(s1) + (token + wire_varint(s2))), s3, Some(length)) {
                        None => None,
                        Some((o, rest)) => Some((PktV::Initial { h: LongV { first: o.first, ..h }, token, pn: o.pn, pnb: o.pnb, frames: o.frames }, rest)),
                    } } } } }
}
pub open spec fn p_long_sealed(c: Connection, sp: PacketNumberSpace, s: Seq<u8>) -> Option<((LongV, u64, OpenV), Seq<u8>)> {
    match p_u8(s) { None => None, Some((first, s0)) =>
        match p_long(s0, first) { None => None, Some((h, s1)) =>
            match p_varint(s1) { None => None, Some((length, s2)) =>
                match p_sealed(remote_keys(c, sp), space(c, sp).largest_remote_ack, first, has_protection(first, h.version), 0x0f, long_tail(h) + wire_varint(s1), s2, Some(length)) {
                    None => None,
                    Some((o, rest)) => Some(((LongV { first: o.first, ..h }, length, o), rest)),
                } } } }
}
pub open spec fn p_zero_rtt(c: Connection, s: Seq<u8>) -> Option<(PktV, Seq<u8>)> {
    match p_long_sealed(c, PacketNumberSpace::Application, s) { None => None, Some(((h, length, o), rest)) => Some((PktV::ZeroRtt { h, length, pn: o.pn, pnb: o.pnb, frames: o.frames }, rest)) }
}
pub open spec fn p_handshake(c: Connection, s: Seq<u8>) -> Option<(PktV, Seq<u8>)> {
    match p_long_sealed(c, PacketNumberSpace::Handshake, s) { None => None, Some(((h, length, o), rest)) => Some((PktV::Handshake { h, pn: o.pn, pnb: o.pnb, frames: o.frames }, rest)) }
}
pub open spec fn p_one_rtt(c: Connection, s: Seq<u8>) -> Option<(PktV, Seq<u8>)> {
    match p_u8(s) { None => None, Some((first, s0)) =>
        match p_short(s0, first) { None => None, Some((h, s1)) =>
            match p_sealed(remote_keys(c, PacketNumberSpace::Application), space(c, PacketNumberSpace::Application).largest_remote_ack, first, true, 0x1f, h.dcid, s1, None) {
                None => None,
                Some((o, rest)) => Some((PktV::OneRtt { h: ShortV { first: o.first, ..h }, pn: o.pn, pnb: o.pnb, frames: o.frames }, rest)),
            } } }
}
pub open spec fn words(s: Seq<u8>, n: nat) -> Seq<u32> { Seq::new(n, |i: int| be(s.subrange(4 * i, 4 * i + 4)) as u32) }
pub open spec fn p_vn(s: Seq<u8>) -> Option<(PktV, Seq<u8>)> {
    match p_u8(s) { None => None, Some((first, s0)) =>
        match p_long(s0, first) { None => None, Some((h, s1)) =>
            if s1.len() % 4 != 0 { None } else { Some((PktV::VersionNegotiation { h, versions: words(s1, s1.len() / 4) }, s1.skip(s1.len() as int))) } } }
}
/// the next packet of a datagram, by the type its own header announces
pub open spec fn p_packet(c: Connection, s: Seq<u8>) -> Option<(PktV, Seq<u8>)> {
    match p_header(s) { None => None, Some((h, _)) =>
        match h {
            HeaderV::Short(_) => p_one_rtt(c, s),
            HeaderV::Long(h) => match ptype(h.first, h.version) {
                PacketType::VersionNegotiation => p_vn(s),
                PacketType::Initial => p_initial(c, s),
                PacketType::ZeroRtt => p_zero_rtt(c, s),
                PacketType::Handshake => p_handshake(c, s),
                _ => None,
            },
        } }
}
pub open spec fn p_packets(c: Connection, s: Seq<u8>) -> Option<Seq<PktV>>
    decreases s.len(),
{
    if s.len() == 0 { Some(Seq::empty()) } else {
        match p_packet(c, s) { None => None, Some((p, rest)) =>
            if rest.len() >= s.len() { None } else { match p_packets(c, rest) { None => None, Some(ps) => Some(seq![p] + ps) } } }
    }
}
pub open spec fn then_packets(a: Seq<PktV>, o: Option<Seq<PktV>>) -> Option<Seq<PktV>> { match o { None => None, Some(b) => Some(a + b) } }

// ---- views
pub open spec fn initial_v(p: PacketInitial) -> PktV {
    PktV::Initial { h: long_v(p.header), token: p.token@, pn: p.packet_number, pnb: p.packet_number_bytes@, frames: frames_v(p.packet_payload@) }
}
pub open spec fn zero_rtt_v(p: PacketZeroRtt) -> PktV {
    PktV::ZeroRtt { h: long_v(p.header), length: p.length, pn: p.packet_number, pnb: p.packet_number_bytes@, frames: frames_v(p.packet_payload@) }
}
pub open spec fn handshake_v(p: PacketHandshake) -> PktV {
    PktV::Handshake { h: long_v(p.header), pn: p.packet_number, pnb: p.packet_number_bytes@, frames: frames_v(p.packet_payload@) }
}
pub open spec fn one_rtt_v(p: PacketOneRtt) -> PktV {
    PktV::OneRtt { h: short_v(p.header), pn: p.packet_number, pnb: p.packet_number_bytes@, frames: frames_v(p.packet_payload@) }
}
pub open spec fn vn_v(p: PacketVersionNegotiation) -> PktV { PktV::VersionNegotiation { h: long_v(p.header), versions: p.supported_versions@ } }
pub open spec fn packet_v(p: Packet) -> PktV {
    match p {
        Packet::VersionNegotiation(x) => vn_v(x),
        Packet::Initial(x) => initial_v(x),
        Packet::ZeroRtt(x) => zero_rtt_v(x),
        Packet::Handshake(x) => handshake_v(x),
        Packet::OneRtt(x) => one_rtt_v(x),
        Packet::Retry(x) => PktV::Retry,
    }
}
pub open spec fn packets_v(s: Seq<Packet>) -> Seq<PktV> { Seq::new(s.len(), |i: int| packet_v(s[i])) }

// ------------------------------------------------------------------ writing
/// a packet from its first byte on: sealed payload, then header protection
pub open spec fn e_sealed(k: SecV, first: u8, bits: u8, hd: Seq<u8>, pn: u64, pnb: Seq<u8>, pt: Seq<u8>) -> Seq<u8> {
    let ct = seal(k, pn, seq![first] + (hd + pnb), pt);
    let mask = hp_mask_v(k, ct.skip(4 - pnb.len()).take(16));
    seq![first ^ (mask[0] & bits)] + (hd + (pn_xor(pnb, mask, pnb.len()) + ct))
}
pub open spec fn payload_v(p: PktV) -> Seq<FrameV> {
    match p { PktV::Initial { h, token, pn, pnb, frames } => frames, PktV::Handshake { h, pn, pnb, frames } => frames, _ => Seq::empty() }
}
/// value of the Length field
pub open spec fn length_v(pt: Seq<u8>, pnb: Seq<u8>) -> nat { pnb.len() + pt.len() + 16 }
pub open spec fn e_initial(k: SecV, h: LongV, token: Seq<u8>, pn: u64, pnb: Seq<u8>, frames: Seq<FrameV>) -> Seq<u8> {
    let pt = e_frames(frames, false);
    e_sealed(k, h.first, 0x0f, long_tail(h) + (e_varint(token.len()) + (token + e_varint(length_v(pt, pnb)))), pn, pnb, pt)
}
pub open spec fn e_handshake(k: SecV, h: LongV, pn: u64, pnb: Seq<u8>, frames: Seq<FrameV>) -> Seq<u8> {
    let pt = e_frames(frames, false);
    e_sealed(k, h.first, 0x0f, long_tail(h) + e_varint(length_v(pt, pnb)), pn, pnb, pt)
}
/// such a packet can be written: integers fit and there is a full sample after the packet number
pub open spec fn sendable(k: Option<SecV>, pnb: Seq<u8>, frames: Seq<FrameV>) -> bool {
    k is Some && all_encodable(frames, false) && varint_ok(length_v(e_frames(frames, false), pnb)) && e_frames(frames, false).len() + pnb.len() >= 4
}
pub open spec fn cids_ok(fs: Seq<Frame>) -> bool { forall|i: int| 0 <= i < fs.len() ==> cid_len_ok(frame_v(#[trigger] fs[i])) }
/// a packet ready to send: not protected yet, its first byte announces the packet number length
pub open spec fn out_wf(h: LongPacketHeader, pnb: Seq<u8>, frames: Seq<Frame>) -> bool {
    long_wf(h) && !h.is_protected && pnb.len() == pn_len(h.header_byte) && cids_ok(frames)
}
/// the header a connection puts on its packets
pub open spec fn conn_long(c: Connection, first: u8) -> LongV {
    LongV { first, version: version_number(c.version), dcid: cid_v(c.dcid.0, c.dcid.1 as u8), scid: cid_v((c.scid->0).0, (c.scid->0).1 as u8) }
}

// ------------------------------------------------------------------ lemmas for the code
pub broadcast proof fn lemma_bev1(s: Seq<u8>)
    ensures #[trigger] bev(s, 1) == s[0],
{
    reveal_with_fuel(bev, 2);
}
pub broadcast proof fn lemma_be_bytes_of_bev_b(s: Seq<u8>, k: int, n: nat)
    requires k == n, n <= s.len(),
    ensures #[trigger] be_bytes(bev(s, k), n) == s.take(n as int),
{
    lemma_be_bytes_of_bev(s, n);
}
pub broadcast proof fn lemma_type_bits(b: u8)
    ensures #![trigger b & 0x3f] (b & 0x3f) >> 4 == (b / 16) % 4,
{
    assert((b & 0x3f) >> 4 == (b / 16) % 4) by (bit_vector);
}
pub broadcast proof fn lemma_pn_bits(b: u8)
    ensures #[trigger] (b & 0x03) == b % 4,
{
    assert((b & 0x03) == b % 4) by (bit_vector);
}
pub broadcast proof fn lemma_form_bit(b: u8)
    ensures #![trigger b & 0x80] b & 0x80 == 0x80 <==> b >= 0x80, b & 0x80 == 0 <==> b < 0x80,
{
    assert(b & 0x80 == 0x80 <==> b >= 0x80) by (bit_vector);
    assert(b & 0x80 == 0 <==> b < 0x80) by (bit_vector);
}
pub broadcast proof fn lemma_u8_bytes(b: u8)
    ensures #[trigger] be_bytes(b as nat, 1) == seq![b],
{
    reveal_with_fuel(be_bytes, 2);
    assert(be_bytes(b as nat, 1) =~= seq![b]);
}
pub broadcast proof fn lemma_unseal_ext(k: SecV, pn: u64, a: Seq<u8>, p: Seq<u8>, b: Seq<u8>, q: Seq<u8>)
    ensures #![trigger unseal(k, pn, a, p), unseal(k, pn, b, q)] a =~= b && p =~= q ==> unseal(k, pn, a, p) == unseal(k, pn, b, q),
{
}
pub broadcast proof fn lemma_hp_ext(k: SecV, a: Seq<u8>, b: Seq<u8>)
    ensures #![trigger hp_mask_v(k, a), hp_mask_v(k, b)] a =~= b ==> hp_mask_v(k, a) == hp_mask_v(k, b),
{
}
pub broadcast proof fn lemma_seal_ext(k: SecV, pn: u64, a: Seq<u8>, p: Seq<u8>, b: Seq<u8>, q: Seq<u8>)
    ensures #![trigger seal(k, pn, a, p), seal(k, pn, b, q)] a =~= b && p =~= q ==> seal(k, pn, a, p) == seal(k, pn, b, q),
{
}
pub proof fn lemma_first_byte(n: u8)
    ensures n < 4 ==> (0xc0u8 | 0x00u8 | n) == 0xc0 + n && (0xc0u8 | 0x20u8 | n) == 0xe0 + n,
{
    assert(n < 4 ==> (0xc0u8 | 0x00u8 | n) == add(0xc0, n) && (0xc0u8 | 0x20u8 | n) == add(0xe0, n)) by (bit_vector);
}
pub broadcast proof fn lemma_short_bits(b: u8)
    ensures
        #![trigger b & 0x20]
        #![trigger b & 0x18]
        #![trigger b & 0x04]
        b & 0x20 == 0x20 <==> (b / 32) % 2 == 1, (b & 0x18) >> 3 == (b / 8) % 4, b & 0x04 == 0x04 <==> (b / 4) % 2 == 1,
{
    assert((b & 0x20 == 0x20 <==> (b / 32) % 2 == 1) && (b & 0x18) >> 3 == (b / 8) % 4 && (b & 0x04 == 0x04 <==> (b / 4) % 2 == 1)) by (bit_vector);
}
/// decoding a packet makes progress
pub broadcast proof fn lemma_p_packet_len(c: Connection, s: Seq<u8>)
    ensures #![trigger p_packet(c, s)] p_packet(c, s) is Some ==> left(p_packet(c, s)).len() < s.len(),
{
}
pub broadcast proof fn lemma_packets_v_push(s: Seq<Packet>, p: Packet)
    ensures #[trigger] packets_v(s.push(p)) == packets_v(s).push(packet_v(p)),
{
    assert(packets_v(s.push(p)) =~= packets_v(s).push(packet_v(p)));
}
pub broadcast proof fn lemma_then_packets(c: Connection, ps: Seq<PktV>, s: Seq<u8>)
    ensures
        #![trigger then_packets(ps, p_packets(c, s))]
        s.len() == 0 ==> then_packets(ps, p_packets(c, s)) == Some(ps),
        s.len() > 0 && p_packet(c, s) is None ==> then_packets(ps, p_packets(c, s)) is None,
        s.len() > 0 && p_packet(c, s) is Some ==> then_packets(ps, p_packets(c, s)) == then_packets(ps.push(got(p_packet(c, s))), p_packets(c, left(p_packet(c, s)))),
{
    lemma_p_packet_len(c, s);
    if s.len() == 0 {
        assert(ps + Seq::<PktV>::empty() =~= ps);
    } else if p_packet(c, s) is Some {
        let (f, rest) = p_packet(c, s)->0;
        if let Some(m) = p_packets(c, rest) { assert(ps + (seq![f] + m) =~= ps.push(f) + m); }
    }
}
pub broadcast proof fn lemma_pn_xor_sub(s: Seq<u8>, mask: Seq<u8>, k: int, m: nat, n: int)
    requires 0 <= n <= m, m <= k <= s.len(),
    ensures #[trigger] pn_xor(s.take(k), mask, m).subrange(0, n) == pn_xor(s, mask, n as nat),
{
    assert(pn_xor(s.take(k), mask, m).subrange(0, n) =~= pn_xor(s, mask, n as nat));
}
pub broadcast proof fn lemma_pn_xor_take(s: Seq<u8>, mask: Seq<u8>, k: int, n: nat)
    requires n <= k <= s.len(),
    ensures #[trigger] pn_xor(s.take(k), mask, n) == pn_xor(s, mask, n),
{
    assert(pn_xor(s.take(k), mask, n) =~= pn_xor(s, mask, n));
}
pub broadcast proof fn lemma_pn_xor_len(s: Seq<u8>, mask: Seq<u8>, n: nat)
    ensures #[trigger] pn_xor(s, mask, n).len() == n,
{
}
pub broadcast proof fn lemma_seal_len(k: SecV, pn: u64, a: Seq<u8>, p: Seq<u8>)
    ensures #[trigger] seal(k, pn, a, p).len() == p.len() + 16,
{
    axiom_gcm(k.key, nonce(k.iv, pn), a, p);
    axiom_gcm(k.key, nonce(k.iv, pn), a, gcm_ct(k.key, nonce(k.iv, pn), p));
}
pub broadcast proof fn lemma_p_long_len(s: Seq<u8>, first: u8)
    ensures #![trigger p_long(s, first)] p_long(s, first) is Some ==> left(p_long(s, first)).len() + 6 <= s.len(),
{
}
pub broadcast proof fn lemma_take_full(s: Seq<u8>, n: int)
    requires n == s.len(),
    ensures #[trigger] s.take(n) == s,
{
    assert(s.take(n) =~= s);
}
pub broadcast proof fn lemma_mod4(n: usize)
    ensures #[trigger] (n & 0x03) == n % 4,
{
    assert((n & 0x03) == n % 4) by (bit_vector);
}
pub broadcast group group_packet_io {
    lemma_bev1, lemma_pn_bits, lemma_unseal_ext, lemma_hp_ext, lemma_seal_ext, lemma_assoc, lemma_pn_xor_sub, lemma_pn_xor_take, lemma_pn_xor_len,
    lemma_skip_skip, lemma_skip_0, lemma_subrange_full, lemma_take_full, lemma_seal_len, lemma_p_long_len, crate::vext::axiom_vec_len,
}
pub broadcast group group_packets { lemma_p_packet_len, lemma_packets_v_push, lemma_then_packets }
pub broadcast group group_packet {
    lemma_short_bits, lemma_u8_shr, lemma_u8_and,
    lemma_mod4, lemma_assoc, lemma_bev1, lemma_be_bytes_of_bev_b, lemma_type_bits, lemma_pn_bits, lemma_form_bit, lemma_u8_bytes, lemma_unseal_ext, lemma_hp_ext, lemma_seal_ext,
}

// ------------------------------------------------------------------ routing
pub open spec fn two128() -> nat { 0x1_0000_0000_0000_0000nat * 0x1_0000_0000_0000_0000nat }
pub open spec fn key_of(n: nat) -> U160 { U160 { idx0: (n / two128()) as u32, idx1: (n % two128()) as u128 } }
/// an id is determined by its number
pub broadcast proof fn lemma_key_of(c: U160)
    ensures key_of(#[trigger] cid_nat(c)) == c,
{
    let b: int = two128() as int;
    assert(cid_nat(c) == c.idx0 * b + c.idx1);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(c.idx0 * b + c.idx1, b, c.idx0 as int, c.idx1 as int);
}
/// does the datagram's first header carry a destination id (version negotiation allows ids that no connection can have)
pub open spec fn nameable(d: Seq<u8>) -> bool {
    match p_header(d) { Some((HeaderV::Long(h), _)) => h.dcid.len() <= 20, _ => true }
}
/// the connection a datagram names: the destination id of its first header
pub open spec fn named(d: Seq<u8>) -> Option<U160> {
    match p_header(d) {
        Some((HeaderV::Long(h), _)) => Some(key_of(be(h.dcid))),
        Some((HeaderV::Short(h), _)) => Some(key_of(be(h.dcid))),
        None => None,
    }
}
pub open spec fn is_initial(d: Seq<u8>) -> bool {
    match p_header(d) { Some((HeaderV::Long(h), _)) => ptype(h.first, h.version) is Initial, _ => false }
}
pub open spec fn routable(m: Map<U160, InternalQuicStream>, d: Seq<u8>) -> bool {
    named(d) is Some && m.contains_key(named(d)->0) && m[named(d)->0].sender.open
}
pub open spec fn with_sent(s: InternalQuicStream, d: InternalDatagram) -> InternalQuicStream {
    InternalQuicStream { sender: Sender { sent: Ghost(s.sender.sent@.push(d)), ..s.sender }, ..s }
}
pub open spec fn delivered(m: Map<U160, InternalQuicStream>, d: InternalDatagram) -> Map<U160, InternalQuicStream> {
    m.insert(named(d.data@)->0, with_sent(m[named(d.data@)->0], d))
}
pub open spec fn opened(m: Map<U160, InternalQuicStream>, d: Seq<u8>) -> Option<Seq<PktV>> {
    if named(d) is Some && m.contains_key(named(d)->0) { p_packets(m[named(d)->0].connection.v, d) } else { None }
}
/// what each connection has been sent, and whether it still listens
pub open spec fn deliv(m: Map<U160, InternalQuicStream>) -> Map<U160, (Seq<Seq<u8>>, bool)> {
    Map::new(m.dom(), |k: U160| (m[k].sender.sent@.map_values(|d: InternalDatagram| d.data@), m[k].sender.open))
}
pub open spec fn step(v: Map<U160, (Seq<Seq<u8>>, bool)>, d: Seq<u8>) -> Map<U160, (Seq<Seq<u8>>, bool)> {
    if named(d) is Some && v.contains_key(named(d)->0) && v[named(d)->0].1 { v.insert(named(d)->0, (v[named(d)->0].0.push(d), true)) } else { v }
}
/// the deliveries of a history of datagrams
pub open spec fn run(v: Map<U160, (Seq<Seq<u8>>, bool)>, ds: Seq<Seq<u8>>) -> Map<U160, (Seq<Seq<u8>>, bool)>
    decreases ds.len(),
{
    if ds.len() == 0 { v } else { step(run(v, ds.drop_last()), ds.last()) }
}
pub open spec fn all_nameable(ds: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < ds.len() ==> nameable(#[trigger] ds[i]) }
pub open spec fn since(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>) -> Seq<Seq<u8>> { b.skip(a.len() as int) }
/// the datagrams received from one state to another
pub open spec fn ds_of(a: InternalQuicSocket, b: InternalQuicSocket) -> Seq<Seq<u8>> { since(a.socket.v.got@, b.socket.v.got@) }
pub broadcast proof fn lemma_since(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>, d: Seq<u8>)
    requires a.len() <= b.len(),
    ensures #[trigger] since(a, b.push(d)) == since(a, b).push(d), since(a, b.push(d)).last() == d, since(a, b.push(d)).drop_last() == since(a, b),
{
    assert(since(a, b.push(d)) =~= since(a, b).push(d));
    assert(since(a, b).push(d).drop_last() =~= since(a, b));
}
pub broadcast proof fn lemma_since_last(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>)
    requires a.len() <= b.len(), since(a, b).len() > 0,
    ensures (#[trigger] since(a, b).last()) == b.last(),
{}
pub broadcast proof fn lemma_since_0(a: Seq<Seq<u8>>)
    ensures #[trigger] since(a, a) == Seq::<Seq<u8>>::empty(),
{ assert(since(a, a) =~= Seq::<Seq<u8>>::empty()); }
pub broadcast proof fn lemma_run_push(v: Map<U160, (Seq<Seq<u8>>, bool)>, ds: Seq<Seq<u8>>, d: Seq<u8>)
    ensures #[trigger] run(v, ds.push(d)) == step(run(v, ds), d),
{ assert(ds.push(d).drop_last() =~= ds); }
pub broadcast proof fn lemma_nameable_push(ds: Seq<Seq<u8>>, d: Seq<u8>)
    ensures #[trigger] all_nameable(ds.push(d)) <==> all_nameable(ds) && nameable(d),
{
    if all_nameable(ds.push(d)) { assert(forall|i: int| 0 <= i < ds.len() ==> #[trigger] ds[i] == ds.push(d)[i]); assert(ds.push(d)[ds.len() as int] == d); }
}
/// delivering one datagram is one step
pub broadcast proof fn lemma_delivered(m: Map<U160, InternalQuicStream>, d: InternalDatagram)
    requires routable(m, d.data@),
    ensures deliv(#[trigger] delivered(m, d)) == step(deliv(m), d.data@),
{
    let n = named(d.data@)->0;
    let f = |d: InternalDatagram| d.data@;
    assert(m[n].sender.sent@.push(d).map_values(f) =~= m[n].sender.sent@.map_values(f).push(d.data@));
    assert(deliv(delivered(m, d)) =~= step(deliv(m), d.data@));
}
pub broadcast proof fn lemma_undelivered(m: Map<U160, InternalQuicStream>, d: Seq<u8>)
    requires !routable(m, d),
    ensures #[trigger] step(deliv(m), d) == deliv(m),
{ }
pub broadcast proof fn lemma_deliv_dom(m: Map<U160, InternalQuicStream>)
    ensures (#[trigger] deliv(m)).dom() == m.dom(),
{ assert(deliv(m).dom() =~= m.dom()); }
/// lending an entry without changing it changes nothing
pub broadcast proof fn lemma_lend(m: Map<U160, InternalQuicStream>, k: U160)
    requires m.contains_key(k),
    ensures #[trigger] m.insert(k, m[k]) == m,
{ assert(m.insert(k, m[k]) =~= m); }
/// everything but the channels
pub open spec fn same_conns(a: Map<U160, InternalQuicStream>, b: Map<U160, InternalQuicStream>) -> bool {
    a.dom() == b.dom() && forall|k: U160| #[trigger] a.contains_key(k) ==> a[k].connection == b[k].connection && a[k].receiver == b[k].receiver
}
/// accepting a connection registers exactly one new one, under a fresh id, as the server side of the Initial packet's
/// destination id; what the others are connected to is unchanged
pub open spec fn accepted(a: InternalQuicSocket, b: InternalQuicSocket, k: U160) -> bool {
    let (m, n) = (a.streams.v.m@, b.streams.v.m@);
    &&& !m.contains_key(k) && n.contains_key(k)
    &&& forall|q: U160| #[trigger] n.contains_key(q) <==> q == k || m.contains_key(q)
    &&& forall|q: U160| #[trigger] m.contains_key(q) ==> m[q].connection == n[q].connection && m[q].receiver == n[q].receiver
    &&& server_for(n[k], b.socket.v.got@.last()) && n[k].connection.v.scid == Some((k, 8usize))
}
/// a new stream for the connection that the Initial packet at the head of d asks for
pub open spec fn server_for(s: InternalQuicStream, d: Seq<u8>) -> bool {
    let c = s.connection.v;
    &&& is_initial(d) && c.version == crate::version::Version::V1 && conn_wf(c)
    &&& s.sender.open && s.sender.sent@.len() == 0
    &&& match p_header(d) {
        Some((HeaderV::Long(h), _)) => c.dcid == (key_of(be(h.dcid)), h.dcid.len() as usize)
            && local_keys(c, PacketNumberSpace::Initial) == Some(initial_keys(true, h.dcid, crate::version::Version::V1))
            && remote_keys(c, PacketNumberSpace::Initial) == Some(initial_keys(false, h.dcid, crate::version::Version::V1)),
        _ => false,
    }
}
pub broadcast proof fn lemma_same_conns(a: Map<U160, InternalQuicStream>, k: U160, s: InternalQuicStream)
    requires a.contains_key(k), a[k].connection == s.connection, a[k].receiver == s.receiver,
    ensures same_conns(a, #[trigger] a.insert(k, s)),
{ assert(a.insert(k, s).dom() =~= a.dom()); }
pub broadcast group group_accept { lemma_since_last }
pub broadcast group group_routing { lemma_key_of, lemma_since, lemma_since_0, lemma_run_push, lemma_nameable_push, lemma_delivered, lemma_undelivered, lemma_deliv_dom, lemma_lend, lemma_same_conns }
} // verus!
