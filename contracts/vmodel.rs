// Specification: views of the crate's types, and the RFC 9000 / 9001 formats over them.
use vstd::prelude::*;
use crate::vspec::*;
use crate::stubs::*;
use crate::error::Error;
use crate::transport_parameters::{PreferredAddress, TransportParameter};
use crate::frame::*;
use crate::version::Version;
use crate::utils::U160;
use crate::quictls::secrets::Secrets;
use crate::connection::*;
use crate::quictls::cipher_suite::QuicTlsCipherSuite;
verus! {

// ------------------------------------------------------------------ error codes (RFC 9000, 20.1)
pub open spec fn error_code(e: Error) -> u8 {
    match e {
        Error::NoError => 0x00,
        Error::InternalError(_) => 0x01,
        Error::ConnectionRefused => 0x02,
        Error::FlowControlError => 0x03,
        Error::StreamLimitError => 0x04,
        Error::StreamStateError => 0x05,
        Error::FinalSizeError => 0x06,
        Error::FrameEncodingError => 0x07,
        Error::TransportParameterError => 0x08,
        Error::ConnectionIdLimitError => 0x09,
        Error::ProtocolViolation => 0x0a,
        Error::InvalidToken => 0x0b,
        Error::ApplicationError => 0x0c,
        Error::CryptoBufferExceeded => 0x0d,
        Error::KeyUpdateError => 0x0e,
        Error::AeadLimitReached => 0x0f,
        Error::NoViablePath => 0x10,
    }
}

// ------------------------------------------------------------------ versions (RFC 9000, 15; RFC 9001, 5.2)
pub open spec fn version_number(v: Version) -> u32 { match v { Version::V1 => 0x0000_0001 } }
pub open spec fn initial_salt(v: Version) -> Seq<u8> {
    match v { Version::V1 => seq![0x38u8, 0x76, 0x2c, 0xf7, 0xf5, 0x59, 0x34, 0xb3, 0x4d, 0x17, 0x9a, 0xe6, 0xa4, 0xc8, 0x0c, 0xad, 0xcc, 0xbb, 0x7f, 0x0a] }
}

// ------------------------------------------------------------------ frames (RFC 9000, 19)
pub open spec fn cid_nat(c: U160) -> nat { u160_nat(c.idx0, c.idx1) }

#[allow(inconsistent_fields)]
pub enum FrameV {
    Padding,
    Ping,
    Ack { largest: u64, delay: u64, count: u64, first: u64, ranges: Seq<(u64, u64)>, ecn: Option<(u64, u64, u64)> },
    ResetStream { id: u64, code: u64, size: u64 },
    StopSending { id: u64, code: u64 },
    Crypto { offset: u64, length: u64, data: Seq<u8> },
    NewToken { length: u64, token: Seq<u8> },
    Stream { id: u64, offset: u64, length: u64, data: Seq<u8>, fin: bool },
    MaxData(u64),
    MaxStreamData(u64, u64),
    MaxStreams(u64, bool),
    DataBlocked(u64),
    StreamDataBlocked(u64, u64),
    StreamsBlocked(u64, bool),
    NewConnectionId { seq: u64, retire: u64, length: u8, cid: nat, token: u128 },
    RetireConnectionId(u64),
    PathChallenge(u64),
    PathResponse(u64),
    Close { code: u64, ty: Option<u64>, length: u64, reason: Seq<u8>, app: bool },
    HandshakeDone,
}

pub open spec fn range_v(r: AckRange) -> (u64, u64) { (r.gap, r.ack_range_length) }
pub open spec fn ranges_v(s: Seq<AckRange>) -> Seq<(u64, u64)> { Seq::new(s.len(), |i: int| range_v(s[i])) }
pub open spec fn ecn_v(e: EcnCounts) -> (u64, u64, u64) { (e.ect0_count, e.ect1_count, e.ecn_ce_count) }
pub open spec fn ack_v(f: FrameAck) -> FrameV {
    FrameV::Ack { largest: f.largest_acknowledged, delay: f.ack_delay, count: f.ack_range_count, first: f.first_ack_range, ranges: ranges_v(f.ack_range@),
        ecn: match f.ecn_counts { Some(e) => Some(ecn_v(e)), None => None } }
}
pub open spec fn reset_stream_v(f: FrameResetStream) -> FrameV { FrameV::ResetStream { id: f.stream_id, code: f.application_protocol_error_code, size: f.final_size } }
pub open spec fn stop_sending_v(f: FrameStopSending) -> FrameV { FrameV::StopSending { id: f.stream_id, code: f.application_protocol_error_code } }
pub open spec fn crypto_v(f: FrameCrypto) -> FrameV { FrameV::Crypto { offset: f.offset, length: f.length, data: f.crypto_data@ } }
pub open spec fn new_token_v(f: FrameNewToken) -> FrameV { FrameV::NewToken { length: f.token_length, token: f.token@ } }
pub open spec fn stream_v(f: FrameStream) -> FrameV { FrameV::Stream { id: f.stream_id, offset: f.offset, length: f.length, data: f.stream_data@, fin: f.is_fin } }
pub open spec fn max_data_v(f: FrameMaxData) -> FrameV { FrameV::MaxData(f.maximum_data) }
pub open spec fn max_stream_data_v(f: FrameMaxStreamData) -> FrameV { FrameV::MaxStreamData(f.stream_id, f.maximum_stream_data) }
pub open spec fn max_streams_v(f: FrameMaxStreams) -> FrameV { FrameV::MaxStreams(f.maximum_streams, f.is_unidirectional) }
pub open spec fn data_blocked_v(f: FrameDataBlocked) -> FrameV { FrameV::DataBlocked(f.maximum_data) }
pub open spec fn stream_data_blocked_v(f: FrameStreamDataBlocked) -> FrameV { FrameV::StreamDataBlocked(f.stream_id, f.maximum_stream_data) }
pub open spec fn streams_blocked_v(f: FrameStreamsBlocked) -> FrameV { FrameV::StreamsBlocked(f.maximum_streams, f.is_unidirectional_limit) }
pub open spec fn new_cid_v(f: FrameNewConnectionId) -> FrameV {
    FrameV::NewConnectionId { seq: f.sequence_number, retire: f.retire_prior_to, length: f.length, cid: cid_nat(f.connection_id), token: f.stateless_reset_token }
}
pub open spec fn retire_cid_v(f: FrameRetireConnectionId) -> FrameV { FrameV::RetireConnectionId(f.sequence_number) }
pub open spec fn path_challenge_v(f: FramePathChallenge) -> FrameV { FrameV::PathChallenge(f.data) }
pub open spec fn path_response_v(f: FramePathResponse) -> FrameV { FrameV::PathResponse(f.data) }
pub open spec fn close_v(f: FrameConnectionClose) -> FrameV {
    FrameV::Close { code: f.error_code, ty: f.frame_type, length: f.reason_phrase_length, reason: f.reason_phrase@, app: f.is_application_error }
}
pub open spec fn frame_v(f: Frame) -> FrameV {
    match f {
        Frame::Padding => FrameV::Padding,
        Frame::Ping => FrameV::Ping,
        Frame::Ack(x) => ack_v(x),
        Frame::ResetStream(x) => reset_stream_v(x),
        Frame::StopSending(x) => stop_sending_v(x),
        Frame::Crypto(x) => crypto_v(x),
        Frame::NewToken(x) => new_token_v(x),
        Frame::Stream(x) => stream_v(x),
        Frame::MaxData(x) => max_data_v(x),
        Frame::MaxStreamData(x) => max_stream_data_v(x),
        Frame::MaxStreams(x) => max_streams_v(x),
        Frame::DataBlocked(x) => data_blocked_v(x),
        Frame::StreamDataBlocked(x) => stream_data_blocked_v(x),
        Frame::StreamsBlocked(x) => streams_blocked_v(x),
        Frame::NewConnectionId(x) => new_cid_v(x),
        Frame::RetireConnectionId(x) => retire_cid_v(x),
        Frame::PathChallenge(x) => path_challenge_v(x),
        Frame::PathResponse(x) => path_response_v(x),
        Frame::ConnectionClose(x) => close_v(x),
        Frame::HandshakeDone => FrameV::HandshakeDone,
    }
}
pub open spec fn frames_v(s: Seq<Frame>) -> Seq<FrameV> { Seq::new(s.len(), |i: int| frame_v(s[i])) }

// ---- readers
pub open spec fn p_varint2(s: Seq<u8>) -> Option<((u64, u64), Seq<u8>)> {
    match p_varint(s) { None => None, Some((a, s1)) => match p_varint(s1) { None => None, Some((b, s2)) => Some(((a, b), s2)) } }
}
pub open spec fn p_varint3(s: Seq<u8>) -> Option<((u64, u64, u64), Seq<u8>)> {
    match p_varint2(s) { None => None, Some(((a, b), s1)) => match p_varint(s1) { None => None, Some((c, s2)) => Some(((a, b, c), s2)) } }
}
/// a length followed by that many bytes
pub open spec fn p_lv(s: Seq<u8>) -> Option<((u64, Seq<u8>), Seq<u8>)> {
    match p_varint(s) { None => None, Some((n, s1)) => match p_bytes(s1, n as nat) { None => None, Some((b, s2)) => Some(((n, b), s2)) } }
}
pub open spec fn p_ranges(s: Seq<u8>, n: nat) -> Option<(Seq<(u64, u64)>, Seq<u8>)>
    decreases n,
{
    if n == 0 { Some((Seq::empty(), s)) } else {
        match p_ranges(s, (n - 1) as nat) { None => None, Some((rs, s1)) => match p_varint2(s1) { None => None, Some((r, s2)) => Some((rs.push(r), s2)) } }
    }
}
pub open spec fn p_ack(s: Seq<u8>, has_ecn: bool) -> Option<(FrameV, Seq<u8>)> {
    match p_varint3(s) { None => None, Some(((largest, delay, count), s1)) =>
        match p_varint(s1) { None => None, Some((first, s2)) =>
            match p_ranges(s2, count as nat) { None => None, Some((ranges, s3)) =>
                if has_ecn {
                    match p_varint3(s3) { None => None, Some((e, s4)) => Some((FrameV::Ack { largest, delay, count, first, ranges, ecn: Some(e) }, s4)) }
                } else { Some((FrameV::Ack { largest, delay, count, first, ranges, ecn: None }, s3)) } } } }
}
pub open spec fn p_reset_stream(s: Seq<u8>) -> Option<(FrameV, Seq<u8>)> {
    match p_varint3(s) { None => None, Some(((id, code, size), s1)) => Some((FrameV::ResetStream { id, code, size }, s1)) }
}
pub open spec fn p_stop_sending(s: Seq<u8>) -> Option<(FrameV, Seq<u8>)> {
    match p_varint2(s) { None => None, Some(((id, code), s1)) => Some((FrameV::StopSending { id, code }, s1)) }
}
pub open spec fn p_crypto(s: Seq<u8>) -> Option<(FrameV, Seq<u8>)> {
    match p_varint(s) { None => None, Some((offset, s1)) => match p_lv(s1) { None => None, Some(((length, data), s2)) => Some((FrameV::Crypto { offset, length, data }, s2)) } }
}
pub open spec fn p_new_token(s: Seq<u8>) -> Option<(FrameV, Seq<u8>)> {
    match p_lv(s) { None => None, Some(((length, token), s1)) => Some((FrameV::NewToken { length, token }, s1)) }
}
pub open spec fn p_stream(s: Seq<u8>, off: bool, len: bool, fin: bool) -> Option<(FrameV, Seq<u8>)> {
    match p_varint(s) { None => None, Some((id, s1)) =>
        match (if off { p_varint(s1) } else { Some((0u64, s1)) }) { None => None, Some((offset, s2)) =>
            if len {
                match p_lv(s2) { None => None, Some(((length, data), s3)) => Some((FrameV::Stream { id, offset, length, data, fin }, s3)) }
            } else {
                Some((FrameV::Stream { id, offset, length: s2.len() as u64, data: s2, fin }, s2.skip(s2.len() as int)))
            } } }
}
pub open spec fn p_new_cid(s: Seq<u8>) -> Option<(FrameV, Seq<u8>)> {
    match p_varint2(s) { None => None, Some(((seq, retire), s1)) =>
        match p_int(s1, 1) { None => None, Some((length, s2)) =>
            if length < 1 || length > 20 { None } else {
                match p_int(s2, length) { None => None, Some((cid, s3)) =>
                    match p_int(s3, 16) { None => None, Some((token, s4)) =>
                        Some((FrameV::NewConnectionId { seq, retire, length: length as u8, cid, token: token as u128 }, s4)) } } } } }
}
pub open spec fn p_close(s: Seq<u8>, app: bool) -> Option<(FrameV, Seq<u8>)> {
    match p_varint(s) { None => None, Some((code, s1)) =>
        if app {
            match p_lv(s1) { None => None, Some(((length, reason), s2)) => Some((FrameV::Close { code, ty: None, length, reason, app }, s2)) }
        } else {
            match p_varint(s1) { None => None, Some((ty, s2)) =>
                match p_lv(s2) { None => None, Some(((length, reason), s3)) => Some((FrameV::Close { code, ty: Some(ty), length, reason, app }, s3)) } }
        } }
}
/// one frame, after its type
pub open spec fn p_body(ty: u64, s: Seq<u8>) -> Option<(FrameV, Seq<u8>)> {
    if ty == 0x00 { Some((FrameV::Padding, s)) }
    else if ty == 0x01 { Some((FrameV::Ping, s)) }
    else if ty == 0x02 || ty == 0x03 { p_ack(s, ty == 0x03) }
    else if ty == 0x04 { p_reset_stream(s) }
    else if ty == 0x05 { p_stop_sending(s) }
    else if ty == 0x06 { p_crypto(s) }
    else if ty == 0x07 { p_new_token(s) }
    else if 0x08 <= ty <= 0x0f { p_stream(s, ty >= 0x0c, ty % 4 >= 2, ty % 2 == 1) }
    else if ty == 0x10 { match p_varint(s) { None => None, Some((a, r)) => Some((FrameV::MaxData(a), r)) } }
    else if ty == 0x11 { match p_varint2(s) { None => None, Some(((a, b), r)) => Some((FrameV::MaxStreamData(a, b), r)) } }
    else if ty == 0x12 || ty == 0x13 { match p_varint(s) { None => None, Some((a, r)) => Some((FrameV::MaxStreams(a, ty == 0x13), r)) } }
    else if ty == 0x14 { match p_varint(s) { None => None, Some((a, r)) => Some((FrameV::DataBlocked(a), r)) } }
    else if ty == 0x15 { match p_varint2(s) { None => None, Some(((a, b), r)) => Some((FrameV::StreamDataBlocked(a, b), r)) } }
    else if ty == 0x16 || ty == 0x17 { match p_varint(s) { None => None, Some((a, r)) => Some((FrameV::StreamsBlocked(a, ty == 0x17), r)) } }
    else if ty == 0x18 { p_new_cid(s) }
    else if ty == 0x19 { match p_varint(s) { None => None, Some((a, r)) => Some((FrameV::RetireConnectionId(a), r)) } }
    else if ty == 0x1a { match p_int(s, 8) { None => None, Some((a, r)) => Some((FrameV::PathChallenge(a as u64), r)) } }
    else if ty == 0x1b { match p_int(s, 8) { None => None, Some((a, r)) => Some((FrameV::PathResponse(a as u64), r)) } }
    else if ty == 0x1c || ty == 0x1d { p_close(s, ty == 0x1d) }
    else if ty == 0x1e { Some((FrameV::HandshakeDone, s)) }
    else { None }
}
pub open spec fn p_frame(s: Seq<u8>) -> Option<(FrameV, Seq<u8>)> {
    match p_varint(s) { None => None, Some((ty, s1)) => p_body(ty, s1) }
}
pub open spec fn p_frames(s: Seq<u8>) -> Option<Seq<FrameV>>
    decreases s.len(),
{
    if s.len() == 0 { Some(Seq::empty()) } else {
        match p_frame(s) { None => None, Some((f, rest)) =>
            if rest.len() >= s.len() { None } else { match p_frames(rest) { None => None, Some(fs) => Some(seq![f] + fs) } } }
    }
}

// ---- writers
pub open spec fn e_ranges(rs: Seq<(u64, u64)>) -> Seq<u8>
    decreases rs.len(),
{
    if rs.len() == 0 { Seq::empty() } else { e_ranges(rs.drop_last()) + (e_varint(rs.last().0 as nat) + e_varint(rs.last().1 as nat)) }
}
pub open spec fn e_ecn(e: Option<(u64, u64, u64)>) -> Seq<u8> {
    match e { None => Seq::empty(), Some((a, b, c)) => e_varint(a as nat) + e_varint(b as nat) + e_varint(c as nat) }
}
pub open spec fn stream_type(off: bool, len: bool, fin: bool) -> u8 {
    (8 + (if off { 4int } else { 0 }) + (if len { 2int } else { 0 }) + (if fin { 1int } else { 0 })) as u8
}
/// RFC 9000 section 19; `last`: this frame ends the datagram, so a STREAM frame needs no length
pub open spec fn e_frame(f: FrameV, last: bool) -> Seq<u8> {
    match f {
        FrameV::Padding => seq![0x00u8],
        FrameV::Ping => seq![0x01u8],
        FrameV::Ack { largest, delay, count, first, ranges, ecn } =>
            seq![if ecn is Some { 0x03u8 } else { 0x02u8 }] + e_varint(largest as nat) + e_varint(delay as nat) + e_varint(count as nat) + e_varint(first as nat) + e_ranges(ranges) + e_ecn(ecn),
        FrameV::ResetStream { id, code, size } => seq![0x04u8] + e_varint(id as nat) + e_varint(code as nat) + e_varint(size as nat),
        FrameV::StopSending { id, code } => seq![0x05u8] + e_varint(id as nat) + e_varint(code as nat),
        FrameV::Crypto { offset, length, data } => seq![0x06u8] + e_varint(offset as nat) + e_varint(length as nat) + data,
        FrameV::NewToken { length, token } => seq![0x07u8] + e_varint(length as nat) + token,
        FrameV::Stream { id, offset, length, data, fin } =>
            seq![stream_type(offset != 0, !last, fin)] + e_varint(id as nat) + (if offset != 0 { e_varint(offset as nat) } else { Seq::empty() })
                + (if last { Seq::empty() } else { e_varint(length as nat) }) + data,
        FrameV::MaxData(a) => seq![0x10u8] + e_varint(a as nat),
        FrameV::MaxStreamData(a, b) => seq![0x11u8] + e_varint(a as nat) + e_varint(b as nat),
        FrameV::MaxStreams(a, uni) => seq![if uni { 0x13u8 } else { 0x12u8 }] + e_varint(a as nat),
        FrameV::DataBlocked(a) => seq![0x14u8] + e_varint(a as nat),
        FrameV::StreamDataBlocked(a, b) => seq![0x15u8] + e_varint(a as nat) + e_varint(b as nat),
        FrameV::StreamsBlocked(a, uni) => seq![if uni { 0x17u8 } else { 0x16u8 }] + e_varint(a as nat),
        FrameV::NewConnectionId { seq, retire, length, cid, token } =>
            seq![0x18u8] + e_varint(seq as nat) + e_varint(retire as nat) + seq![length] + be_bytes(cid, length as nat) + be_bytes(token as nat, 16),
        FrameV::RetireConnectionId(a) => seq![0x19u8] + e_varint(a as nat),
        FrameV::PathChallenge(a) => seq![0x1au8] + be_bytes(a as nat, 8),
        FrameV::PathResponse(a) => seq![0x1bu8] + be_bytes(a as nat, 8),
        FrameV::Close { code, ty, length, reason, app } =>
            seq![if app { 0x1du8 } else { 0x1cu8 }] + e_varint(code as nat) + (match ty { Some(t) => e_varint(t as nat), None => Seq::empty() }) + e_varint(length as nat) + reason,
        FrameV::HandshakeDone => seq![0x1eu8],
    }
}
pub open spec fn vok(x: u64) -> bool { varint_ok(x as nat) }
pub open spec fn ranges_ok(rs: Seq<(u64, u64)>) -> bool { forall|i: int| 0 <= i < rs.len() ==> vok((#[trigger] rs[i]).0) && vok(rs[i].1) }
pub open spec fn ecn_ok(e: Option<(u64, u64, u64)>) -> bool { match e { None => true, Some((a, b, c)) => vok(a) && vok(b) && vok(c) } }
/// every integer field fits its encoding
pub open spec fn encodable(f: FrameV, last: bool) -> bool {
    match f {
        FrameV::Padding | FrameV::Ping | FrameV::HandshakeDone | FrameV::PathChallenge(_) | FrameV::PathResponse(_) => true,
        FrameV::Ack { largest, delay, count, first, ranges, ecn } => vok(largest) && vok(delay) && vok(count) && vok(first) && ranges_ok(ranges) && ecn_ok(ecn),
        FrameV::ResetStream { id, code, size } => vok(id) && vok(code) && vok(size),
        FrameV::StopSending { id, code } => vok(id) && vok(code),
        FrameV::Crypto { offset, length, data } => vok(offset) && vok(length),
        FrameV::NewToken { length, token } => vok(length),
        FrameV::Stream { id, offset, length, data, fin } => vok(id) && vok(offset) && (last || vok(length)),
        FrameV::MaxData(a) => vok(a),
        FrameV::MaxStreamData(a, b) => vok(a) && vok(b),
        FrameV::MaxStreams(a, uni) => vok(a),
        FrameV::DataBlocked(a) => vok(a),
        FrameV::StreamDataBlocked(a, b) => vok(a) && vok(b),
        FrameV::StreamsBlocked(a, uni) => vok(a),
        FrameV::NewConnectionId { seq, retire, length, cid, token } => vok(seq) && vok(retire),
        FrameV::RetireConnectionId(a) => vok(a),
        FrameV::Close { code, ty, length, reason, app } => vok(code) && (ty is Some ==> vok(ty->0)) && vok(length),
    }
}
pub open spec fn e_frames_n(fs: Seq<FrameV>, df_end: bool, n: nat) -> Seq<u8>
    decreases n,
{
    if n == 0 { Seq::empty() } else { e_frames_n(fs, df_end, (n - 1) as nat) + e_frame(fs[n - 1], df_end && n == fs.len()) }
}
pub open spec fn e_frames(fs: Seq<FrameV>, df_end: bool) -> Seq<u8> { e_frames_n(fs, df_end, fs.len()) }
pub open spec fn all_encodable_n(fs: Seq<FrameV>, df_end: bool, n: nat) -> bool {
    forall|i: int| 0 <= i < n ==> encodable(#[trigger] fs[i], df_end && i == fs.len() - 1)
}
pub open spec fn all_encodable(fs: Seq<FrameV>, df_end: bool) -> bool { all_encodable_n(fs, df_end, fs.len()) }
/// the frame's connection id length can be written (0..20 bytes)
pub open spec fn cid_len_ok(f: FrameV) -> bool { match f { FrameV::NewConnectionId { length, .. } => length <= 20, _ => true } }

// ------------------------------------------------------------------ lemmas for the code
pub broadcast proof fn lemma_p_ranges_none(s: Seq<u8>, a: nat, b: nat)
    requires a <= b, p_ranges(s, a) is None,
    ensures #![trigger p_ranges(s, a), p_ranges(s, b)] p_ranges(s, b) is None,
    decreases b,
{
    if a < b { lemma_p_ranges_none(s, a, (b - 1) as nat); }
}
pub broadcast proof fn lemma_flat_push(v: Seq<Vec<u8>>, x: Vec<u8>)
    ensures #[trigger] crate::vext::flat(v.push(x)) == crate::vext::flat(v) + x@,
{
    assert(v.push(x).drop_last() =~= v);
}
pub broadcast proof fn lemma_ranges_take(rs: Seq<(u64, u64)>, i: int, j: int)
    requires 0 <= i, j == i + 1, j <= rs.len(),
    ensures #![trigger e_ranges(rs.take(i)), e_ranges(rs.take(j))] e_ranges(rs.take(j)) == e_ranges(rs.take(i)) + (e_varint(rs[i].0 as nat) + e_varint(rs[i].1 as nat)),
{
    assert(rs.take(j).drop_last() =~= rs.take(i));
    assert(rs.take(j).last() == rs[i]);
}
pub broadcast proof fn lemma_bits_u8(b: u8)
    ensures
        #![trigger b & 0x01]
        #![trigger b & 0x02]
        #![trigger b & 0x04]
        (b & 0x01) == b % 2, (b & 0x02) == (b / 2) % 2 * 2, (b & 0x04) == (b / 4) % 2 * 4,
{
    assert((b & 0x01) == b % 2 && (b & 0x02) == (b / 2) % 2 * 2 && (b & 0x04) == (b / 4) % 2 * 4) by (bit_vector);
}
pub broadcast proof fn lemma_or_u8(a: u8, b: u8)
    ensures
        #![trigger a | b]
        b == 0 ==> (a | b) == a,
        b == 1 && a % 2 == 0 ==> (a | b) == a + 1,
        b == 2 && (a / 2) % 2 == 0 ==> (a | b) == a + 2,
        b == 4 && (a / 4) % 2 == 0 ==> (a | b) == a + 4,
        b == 3 && a % 4 == 0 ==> (a | b) == a + 3,
        b == 0x20 && (a / 0x20) % 2 == 0 ==> (a | b) == a + 0x20,
        b < 4 && a % 4 == 0 ==> (a | b) == a + b,
{
    assert((b == 0 ==> (a | b) == a) && (b == 1 && a % 2 == 0 ==> (a | b) == add(a, 1)) && (b == 2 && (a / 2) % 2 == 0 ==> (a | b) == add(a, 2))
        && (b == 4 && (a / 4) % 2 == 0 ==> (a | b) == add(a, 4)) && (b == 3 && a % 4 == 0 ==> (a | b) == add(a, 3))
        && (b == 0x20 && (a / 0x20) % 2 == 0 ==> (a | b) == add(a, 0x20)) && (b < 4 && a % 4 == 0 ==> (a | b) == add(a, b))) by (bit_vector);
    assert((b == 1 && a % 2 == 0) ==> a < 255);
    assert((b == 2 && (a / 2) % 2 == 0) ==> a < 254);
    assert((b == 4 && (a / 4) % 2 == 0) ==> a < 252);
    assert((b == 0x20 && (a / 0x20) % 2 == 0) ==> a < 224);
}
pub broadcast proof fn lemma_p_varint_len(s: Seq<u8>)
    ensures #![trigger p_varint(s)] p_varint(s) is Some ==> left(p_varint(s)).len() < s.len(),
{
}
pub proof fn lemma_p_ranges_len(s: Seq<u8>, n: nat)
    ensures p_ranges(s, n) is Some ==> left(p_ranges(s, n)).len() <= s.len(),
    decreases n,
{
    if n > 0 { lemma_p_ranges_len(s, (n - 1) as nat); }
}
/// parsing a frame makes progress
#[verifier::rlimit(60)]
pub broadcast proof fn lemma_p_frame_len(s: Seq<u8>)
    ensures #![trigger p_frame(s)] p_frame(s) is Some ==> left(p_frame(s)).len() < s.len(),
{
    if p_frame(s) is Some {
        let (ty, s1) = p_varint(s)->0;
        if ty == 2 || ty == 3 {
            let s2 = left(p_varint(left(p_varint3(s1))));
            lemma_p_ranges_len(s2, (got(p_varint3(s1))).2 as nat);
        }
    }
}
pub broadcast proof fn lemma_frames_v_push(s: Seq<Frame>, f: Frame)
    ensures #[trigger] frames_v(s.push(f)) == frames_v(s).push(frame_v(f)),
{
    assert(frames_v(s.push(f)) =~= frames_v(s).push(frame_v(f)));
}
pub broadcast proof fn lemma_ranges_v_push(s: Seq<AckRange>, f: AckRange)
    ensures #[trigger] ranges_v(s.push(f)) == ranges_v(s).push(range_v(f)),
{
    assert(ranges_v(s.push(f)) =~= ranges_v(s).push(range_v(f)));
}
/// frames parsed so far, followed by what the rest parses to
pub open spec fn then_frames(fs: Seq<FrameV>, more: Option<Seq<FrameV>>) -> Option<Seq<FrameV>> {
    match more { None => None, Some(m) => Some(fs + m) }
}
pub broadcast proof fn lemma_then_frames(fs: Seq<FrameV>, s: Seq<u8>)
    ensures
        #![trigger then_frames(fs, p_frames(s))]
        s.len() == 0 ==> then_frames(fs, p_frames(s)) == Some(fs),
        s.len() > 0 && p_frame(s) is None ==> then_frames(fs, p_frames(s)) is None,
        s.len() > 0 && p_frame(s) is Some ==> then_frames(fs, p_frames(s)) == then_frames(fs.push(got(p_frame(s))), p_frames(left(p_frame(s)))),
{
    lemma_p_frame_len(s);
    if s.len() == 0 {
        assert(fs + Seq::<FrameV>::empty() =~= fs);
    } else if p_frame(s) is Some {
        let (f, rest) = p_frame(s)->0;
        if let Some(m) = p_frames(rest) { assert(fs + (seq![f] + m) =~= fs.push(f) + m); }
    }
}
pub broadcast group group_frame {
    lemma_u8_shr, lemma_u8_and, lemma_p_ranges_none, lemma_flat_push, lemma_ranges_take, lemma_bits_u8, lemma_or_u8, lemma_p_varint_len, lemma_p_frame_len,
    lemma_frames_v_push, lemma_ranges_v_push, lemma_then_frames,
}

// ------------------------------------------------------------------ keys (RFC 9001, 5; RFC 8446, 7.1)
pub open spec fn lab_tls13() -> Seq<u8> { seq![0x74u8, 0x6c, 0x73, 0x31, 0x33, 0x20] }
pub open spec fn lab_server() -> Seq<u8> { seq![0x73u8, 0x65, 0x72, 0x76, 0x65, 0x72, 0x20, 0x69, 0x6e] }
pub open spec fn lab_client() -> Seq<u8> { seq![0x63u8, 0x6c, 0x69, 0x65, 0x6e, 0x74, 0x20, 0x69, 0x6e] }
pub open spec fn lab_hp() -> Seq<u8> { seq![0x71u8, 0x75, 0x69, 0x63, 0x20, 0x68, 0x70] }
pub open spec fn lab_iv() -> Seq<u8> { seq![0x71u8, 0x75, 0x69, 0x63, 0x20, 0x69, 0x76] }
pub open spec fn lab_key() -> Seq<u8> { seq![0x71u8, 0x75, 0x69, 0x63, 0x20, 0x6b, 0x65, 0x79] }
/// struct HkdfLabel
pub open spec fn hkdf_label(len: nat, label: Seq<u8>, ctx: Seq<u8>) -> Seq<u8> {
    be_bytes(len, 2) + seq![(6 + label.len()) as u8] + (lab_tls13() + label) + seq![ctx.len() as u8] + ctx
}
pub open spec fn hkdf_label_ok(len: nat, label: Seq<u8>, ctx: Seq<u8>) -> bool { len <= 65535 && label.len() <= 249 && ctx.len() <= 255 }
pub open spec fn expand_label(secret: Seq<u8>, label: Seq<u8>, ctx: Seq<u8>, len: nat) -> Seq<u8> {
    hkdf_expand(secret, hkdf_label(len, label, ctx), len)
}
pub open spec fn expand_ok(secret: Seq<u8>, label: Seq<u8>, ctx: Seq<u8>, len: nat) -> bool {
    secret.len() >= 32 && hkdf_label_ok(len, label, ctx) && len <= 8160
}

pub struct SecV { pub hp: Seq<u8>, pub key: Seq<u8>, pub iv: Seq<u8> }

pub open spec fn suite_wf(s: QuicTlsCipherSuite) -> bool { s.sample_len == 16 && s.tag_len == Some(16usize) && s.key_len == 16 && s.iv_len == Some(12usize) }
pub open spec fn sec_v(s: Secrets) -> SecV { SecV { hp: s.hp@, key: s.key@, iv: s.iv->0@ } }
pub open spec fn sec_wf(s: Secrets) -> bool {
    suite_wf(*s.cipher_suite) && s.hp@.len() == 16 && s.key@.len() == 16 && s.iv is Some && s.iv->0@.len() == 12
}
/// keys of one direction from its traffic secret
pub open spec fn keys_of(secret: Seq<u8>) -> SecV {
    SecV { hp: expand_label(secret, lab_hp(), seq![], 16), key: expand_label(secret, lab_key(), seq![], 16), iv: expand_label(secret, lab_iv(), seq![], 12) }
}
/// initial keys of the client or the server (RFC 9001, 5.2)
pub open spec fn initial_keys(server: bool, cid: Seq<u8>, v: Version) -> SecV {
    keys_of(expand_label(hkdf_extract(initial_salt(v), cid), if server { lab_server() } else { lab_client() }, seq![], 32))
}

// ------------------------------------------------------------------ payload protection (RFC 9001, 5.3)
pub open spec fn nonce(iv: Seq<u8>, pn: u64) -> Seq<u8> { Seq::new(iv.len(), |i: int| iv[i] ^ be_bytes(pn as nat, iv.len())[i]) }
pub open spec fn seal(k: SecV, pn: u64, aad: Seq<u8>, pt: Seq<u8>) -> Seq<u8> {
    gcm_ct(k.key, nonce(k.iv, pn), pt) + gcm_tag(k.key, nonce(k.iv, pn), aad, gcm_ct(k.key, nonce(k.iv, pn), pt))
}
pub open spec fn gcm_open(key: Seq<u8>, iv: Seq<u8>, aad: Seq<u8>, p: Seq<u8>) -> Option<Seq<u8>> {
    if p.len() < 16 { None }
    else if p.skip(p.len() - 16) != gcm_tag(key, iv, aad, p.take(p.len() - 16)) { None }
    else { Some(gcm_pt(key, iv, p.take(p.len() - 16))) }
}
pub open spec fn unseal(k: SecV, pn: u64, aad: Seq<u8>, p: Seq<u8>) -> Option<Seq<u8>> { gcm_open(k.key, nonce(k.iv, pn), aad, p) }
/// header protection mask (RFC 9001, 5.4.3)
pub open spec fn hp_mask_v(k: SecV, sample: Seq<u8>) -> Seq<u8> { aes_block(k.hp, sample).take(5) }

pub proof fn lemma_be_bytes_high_zero(x: nat, n: nat, m: nat)
    requires x < pow256(n), n <= m,
    ensures forall|j: int| 0 <= j < m - n ==> be_bytes(x, m)[j] == 0u8,
    decreases m,
{
    lemma_be_bytes_len(x, m);
    if n < m {
        if n == 0 {
            assert(x == 0);
            lemma_be_bytes_high_zero(0, 0, (m - 1) as nat);
            lemma_be_bytes_len(0, (m - 1) as nat);
        } else {
            assert(x / 256 < pow256((n - 1) as nat)) by {
                assert(x < 256 * pow256((n - 1) as nat));
            }
            lemma_be_bytes_high_zero(x / 256, (n - 1) as nat, (m - 1) as nat);
            lemma_be_bytes_len(x / 256, (m - 1) as nat);
        }
    }
}
/// the packet number padded to the IV
pub proof fn lemma_pn12(pn: u64)
    ensures
        be_bytes(pn as nat, 12).len() == 12, be_bytes(pn as nat, 8).len() == 8,
        forall|j: int| 0 <= j < 4 ==> be_bytes(pn as nat, 12)[j] == 0u8,
        forall|j: int| 4 <= j < 12 ==> #[trigger] be_bytes(pn as nat, 12)[j] == be_bytes(pn as nat, 8)[j - 4],
        forall|j: int| 0 <= j < 8 ==> #[trigger] be_bytes(pn as nat, 8)[j] == be_bytes(pn as nat, 12)[j + 4],
{
    lemma_pow256_vals();
    lemma_be_bytes_high_zero(pn as nat, 8, 12);
    lemma_be_bytes_len(pn as nat, 12);
    lemma_be_bytes_len(pn as nat, 8);
    lemma_be_bytes_suffix(pn as nat, 12, 8);
    assert forall|j: int| 4 <= j < 12 implies #[trigger] be_bytes(pn as nat, 12)[j] == be_bytes(pn as nat, 8)[j - 4] by {
        assert(be_bytes(pn as nat, 12).skip(4)[j - 4] == be_bytes(pn as nat, 12)[j]);
    }
}
pub broadcast proof fn lemma_xor_zero(b: u8)
    ensures #[trigger] (b ^ 0u8) == b,
{
    assert((b ^ 0u8) == b) by (bit_vector);
}

pub broadcast proof fn lemma_flat5(v: Seq<Vec<u8>>)
    requires v.len() == 5,
    ensures #[trigger] crate::vext::flat(v) == v[0]@ + v[1]@ + v[2]@ + v[3]@ + v[4]@,
{
    reveal_with_fuel(crate::vext::flat, 6);
    assert(v.drop_last().drop_last().drop_last().drop_last().drop_last() =~= Seq::<Vec<u8>>::empty());
    assert(crate::vext::flat(v) =~= v[0]@ + v[1]@ + v[2]@ + v[3]@ + v[4]@);
}
pub broadcast proof fn lemma_nonce_ct(k: Seq<u8>, a: Seq<u8>, p: Seq<u8>, iv: Seq<u8>, pn: u64)
    requires a.len() == iv.len(), forall|i: int| 0 <= i < iv.len() ==> #[trigger] a[i] == iv[i] ^ be_bytes(pn as nat, iv.len())[i],
    ensures #![trigger gcm_ct(k, a, p), gcm_ct(k, nonce(iv, pn), p)] a == nonce(iv, pn),
{
    assert(a =~= nonce(iv, pn));
}
pub broadcast proof fn lemma_nonce_open(k: Seq<u8>, a: Seq<u8>, aad: Seq<u8>, p: Seq<u8>, iv: Seq<u8>, pn: u64)
    requires a.len() == iv.len(), forall|i: int| 0 <= i < iv.len() ==> #[trigger] a[i] == iv[i] ^ be_bytes(pn as nat, iv.len())[i],
    ensures #![trigger gcm_open(k, a, aad, p), gcm_open(k, nonce(iv, pn), aad, p)] a == nonce(iv, pn),
{
    assert(a =~= nonce(iv, pn));
}
pub broadcast group group_nonce { lemma_nonce_ct, lemma_nonce_open, lemma_xor_zero }
pub proof fn lemma_split_eq(p: Seq<u8>, n: int)
    requires 0 <= n <= p.len(),
    ensures p.subrange(0, n) == p.take(n), p.subrange(n, p.len() as int) == p.skip(n),
{
    assert(p.subrange(0, n) =~= p.take(n));
    assert(p.subrange(n, p.len() as int) =~= p.skip(n));
}
pub proof fn lemma_keys_len(secret: Seq<u8>)
    ensures keys_of(secret).hp.len() == 16, keys_of(secret).key.len() == 16, keys_of(secret).iv.len() == 12,
{
    axiom_hkdf(secret, hkdf_label(16, lab_hp(), seq![]), 16);
    axiom_hkdf(secret, hkdf_label(16, lab_key(), seq![]), 16);
    axiom_hkdf(secret, hkdf_label(12, lab_iv(), seq![]), 12);
}

/// labels are compared as byte strings
pub broadcast proof fn lemma_labels(secret: Seq<u8>, label: Seq<u8>, ctx: Seq<u8>, n: nat)
    ensures
        #![trigger expand_label(secret, label, ctx, n)]
        label =~= lab_server() ==> label == lab_server(), label =~= lab_client() ==> label == lab_client(),
        label =~= lab_hp() ==> label == lab_hp(), label =~= lab_iv() ==> label == lab_iv(), label =~= lab_key() ==> label == lab_key(),
        ctx =~= seq![] ==> ctx == Seq::<u8>::empty(),
{
}

// ------------------------------------------------------------------ connection state
pub open spec fn max_pn() -> nat { 0x4000_0000_0000_0000 }
pub open spec fn opt_sec_wf(o: Option<Secrets>) -> bool { o is Some ==> sec_wf(o->0) }
pub open spec fn space_wf(p: PacketNumberSpaceInfo) -> bool {
    (p.largest_remote_ack is Some ==> p.largest_remote_ack->0 < max_pn()) && opt_sec_wf(p.local_tls_secrets) && opt_sec_wf(p.remote_tls_secrets)
}
pub open spec fn conn_wf(c: Connection) -> bool {
    space_wf(c.initial_pn_info) && space_wf(c.handshake_pn_info) && space_wf(c.application_pn_info) && c.dcid.1 <= 20 && (c.scid is Some ==> (c.scid->0).1 <= 20)
}
pub open spec fn space(c: Connection, s: PacketNumberSpace) -> PacketNumberSpaceInfo {
    match s {
        PacketNumberSpace::Initial => c.initial_pn_info,
        PacketNumberSpace::Handshake => c.handshake_pn_info,
        PacketNumberSpace::Application => c.application_pn_info,
    }
}
pub open spec fn local_keys(c: Connection, s: PacketNumberSpace) -> Option<SecV> {
    match space(c, s).local_tls_secrets { Some(k) => Some(sec_v(k)), None => None }
}
pub open spec fn remote_keys(c: Connection, s: PacketNumberSpace) -> Option<SecV> {
    match space(c, s).remote_tls_secrets { Some(k) => Some(sec_v(k)), None => None }
}
pub open spec fn fresh_space(p: PacketNumberSpaceInfo) -> bool {
    p.largest_remote_ack is None && p.largest_local_ack is None && p.next_pn == 0 && p.local_tls_secrets is None && p.remote_tls_secrets is None
}
/// the same space but for the packet number counter
pub open spec fn same_but_pn(a: PacketNumberSpaceInfo, b: PacketNumberSpaceInfo) -> bool {
    a.largest_remote_ack == b.largest_remote_ack && a.largest_local_ack == b.largest_local_ack && a.local_tls_secrets == b.local_tls_secrets && a.remote_tls_secrets == b.remote_tls_secrets
}
/// only the packet number counter of one space differs
pub open spec fn only_pn_changed(a: Connection, b: Connection, s: PacketNumberSpace) -> bool {
    a.version == b.version && a.dcid == b.dcid && a.scid == b.scid && same_but_pn(space(a, s), space(b, s))
        && (!(s is Initial) ==> a.initial_pn_info == b.initial_pn_info) && (!(s is Handshake) ==> a.handshake_pn_info == b.handshake_pn_info)
        && (!(s is Application) ==> a.application_pn_info == b.application_pn_info)
}
/// RFC 9000, A.3
pub open spec fn decode_pn(largest: Option<u64>, t: nat, len: nat) -> int {
    match largest {
        None => t as int,
        Some(x) => {
            let expected = x as int + 1;
            let win = pow256(len) as int;
            let cand = (expected / win) * win + t as int;
            if cand + win / 2 <= expected && cand < max_pn() - win { cand + win }
            else if cand > expected + win / 2 && cand >= win { cand - win }
            else { cand }
        },
    }
}
/// RFC 9000, A.2: enough bytes for every receiver that has at least the acknowledged packet
pub open spec fn pn_trunc_ok(pn: u64, largest_ack: Option<u64>, b: Seq<u8>) -> bool {
    &&& b == be_bytes(pn as nat, b.len())
    &&& 1 <= b.len() <= 8
    &&& match largest_ack { None => pn < pow256(b.len()), Some(x) => 2 * (pn - x) <= pow256(b.len()) }
    &&& small_pn(pn, largest_ack) ==> b.len() <= 4
}
/// at most four bytes are needed for it
pub open spec fn small_pn(pn: u64, largest_ack: Option<u64>) -> bool {
    match largest_ack { None => pn <= u32::MAX, Some(x) => x < pn && pn - x < 0x8000_0000 }
}
pub broadcast proof fn lemma_pn_window(e: u64, w: u64, t: u64)
    requires w == 0x100 || w == 0x1_0000 || w == 0x100_0000 || w == 0x1_0000_0000, t < w,
    ensures #[trigger] ((e & !((w - 1) as u64)) | t) == (e / w) * w + t,
{
    assert(w == 0x100 && t < w ==> ((e & !(sub(w, 1))) | t) == add(mul(e / w, w), t)) by (bit_vector);
    assert(w == 0x1_0000 && t < w ==> ((e & !(sub(w, 1))) | t) == add(mul(e / w, w), t)) by (bit_vector);
    assert(w == 0x100_0000 && t < w ==> ((e & !(sub(w, 1))) | t) == add(mul(e / w, w), t)) by (bit_vector);
    assert(w == 0x1_0000_0000 && t < w ==> ((e & !(sub(w, 1))) | t) == add(mul(e / w, w), t)) by (bit_vector);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(e as int, w as int);
    assert((e / w) * w <= e) by (nonlinear_arith) requires e as int == (w as int) * (e as int / w as int) + (e as int % w as int), e as int % w as int >= 0;
    assert((e / w) * w + t <= u64::MAX) by (nonlinear_arith)
        requires (e / w) * w <= e, t < w, w == 0x100 || w == 0x1_0000 || w == 0x100_0000 || w == 0x1_0000_0000, e <= u64::MAX;
}
pub broadcast proof fn lemma_one_shl_u64(n: usize)
    ensures
        #![trigger 1u64 << n]
        n == 0 ==> 1u64 << n == 1, n == 8 ==> 1u64 << n == 0x100, n == 16 ==> 1u64 << n == 0x1_0000, n == 24 ==> 1u64 << n == 0x100_0000, n == 32 ==> 1u64 << n == 0x1_0000_0000,
        n == 62 ==> 1u64 << n == 0x4000_0000_0000_0000,
{
    assert((n == 0 ==> 1u64 << n == 1) && (n == 8 ==> 1u64 << n == 0x100) && (n == 16 ==> 1u64 << n == 0x1_0000) && (n == 24 ==> 1u64 << n == 0x100_0000)
        && (n == 32 ==> 1u64 << n == 0x1_0000_0000) && (n == 62 ==> 1u64 << n == 0x4000_0000_0000_0000)) by (bit_vector);
}
/// a big-endian value left-padded with zero bytes
pub proof fn lemma_bev_pad(a: Seq<u8>, b: Seq<u8>, k: int, n: int)
    requires 0 <= k, 0 <= n, a.len() == k + n, b.len() == n, forall|i: int| 0 <= i < k ==> a[i] == 0u8, forall|i: int| 0 <= i < n ==> a[k + i] == b[i],
    ensures bev(a, k + n) == bev(b, n),
    decreases n + k,
{
    if n > 0 {
        let a2 = a.take(k + n - 1);
        let b2 = b.take(n - 1);
        lemma_bev_pad(a2, b2, k, n - 1);
        lemma_bev_ext(a, a2, k + n - 1);
        lemma_bev_ext(b, b2, n - 1);
        assert(a[k + n - 1] == b[n - 1]);
    } else if k > 0 {
        let a2 = a.take(k - 1);
        lemma_bev_pad(a2, b, k - 1, 0);
        lemma_bev_ext(a, a2, k - 1);
    }
}
pub broadcast proof fn lemma_be_pad4(a: Seq<u8>, b: Seq<u8>)
    requires a.len() == 4, b.len() <= 4, forall|i: int| 0 <= i < 4 - b.len() ==> a[i] == 0u8, forall|i: int| 0 <= i < b.len() ==> a[4 - b.len() + i] == b[i],
    ensures #![trigger be(a), be(b)] be(a) == be(b),
{
    lemma_bev_pad(a, b, 4 - b.len(), b.len() as int);
}
pub proof fn lemma_pow256_pow2(n: nat)
    ensures pow256(n) == pow2n(8 * n),
    decreases n,
{
    if n > 0 {
        lemma_pow256_pow2((n - 1) as nat);
        reveal_with_fuel(pow2n, 9);
        assert(8 * n - 8 == 8 * (n - 1));
    }
}
/// a number of bytes with room for one bit more than the difference
pub proof fn lemma_trunc_len(diff: nat, n: nat)
    requires diff > 0, 8 * n >= bitlen(diff) + 1,
    ensures 2 * diff <= pow256(n),
{
    lemma_bitlen_pow(diff);
    lemma_pow256_pow2(n);
    lemma_pow2n_mono(bitlen(diff) + 1, 8 * n);
}
pub proof fn lemma_trunc_lens(diff: nat)
    requires diff > 0,
    ensures forall|n: nat| #![trigger pow256(n)] 8 * n >= bitlen(diff) + 1 ==> 2 * diff <= pow256(n),
{
    assert forall|n: nat| #![trigger pow256(n)] 8 * n >= bitlen(diff) + 1 implies 2 * diff <= pow256(n) by { lemma_trunc_len(diff, n); }
}
pub proof fn lemma_bitlen_62(x: nat)
    requires 0 < x < 0x4000_0000_0000_0000,
    ensures 1 <= bitlen(x) <= 62,
{
    lemma_bitlen_pow(x);
    assert(pow2n(62) == 0x4000_0000_0000_0000) by (compute);
    if bitlen(x) > 62 { lemma_pow2n_mono(62, (bitlen(x) - 1) as nat); }
}
pub proof fn lemma_bitlen_31(x: nat)
    ensures 0 < x < 0x8000_0000 ==> 1 <= bitlen(x) <= 31,
{
    if 0 < x < 0x8000_0000 {
        lemma_bitlen_pow(x);
        assert(pow2n(31) == 0x8000_0000) by (compute);
        if bitlen(x) > 31 { lemma_pow2n_mono(31, (bitlen(x) - 1) as nat); }
    }
}
pub broadcast group group_conn { lemma_u64_shr1, lemma_pn_window, lemma_one_shl_u64, lemma_be_pad4 }

/// the candidate packet number, without overflow
pub proof fn lemma_pn_div(largest: Option<u64>, t: nat, len: nat)
    requires 1 <= len <= 4, t < pow256(len),
    ensures largest is Some ==> ((largest->0 + 1) / (pow256(len) as int)) * pow256(len) <= largest->0 + 1,
        largest is Some ==> largest->0 + 1 < ((largest->0 + 1) / (pow256(len) as int)) * pow256(len) + pow256(len),
{
    lemma_pow256_vals();
    if largest is Some {
        let e = largest->0 + 1;
        let w = pow256(len) as int;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(e, w);
        assert((e / w) * w <= e && e < (e / w) * w + w) by (nonlinear_arith) requires e == w * (e / w) + (e % w), 0 <= e % w < w;
    }
}

// ------------------------------------------------------------------ transport parameters (RFC 9000 section 18)
pub open spec fn pref_ok(p: PreferredAddress) -> bool { p.connection_id@.len() <= 255 }
pub open spec fn e_pref(p: PreferredAddress) -> Seq<u8> {
    p.ipv4_address.o@ + be_bytes(p.ipv4_port as nat, 2) + p.ipv6_address.o@ + be_bytes(p.ipv6_port as nat, 2)
        + be_bytes(p.connection_id@.len(), 1) + p.connection_id@ + p.stateless_reset_token@
}
pub open spec fn param_id(t: TransportParameter) -> u64 {
    match t {
        TransportParameter::OriginalDestinationConnectionId(_) => 0x00,
        TransportParameter::MaxIdleTimeout(_) => 0x01,
        TransportParameter::StatelessResetToken(_) => 0x02,
        TransportParameter::MaxUdpPayloadSize(_) => 0x03,
        TransportParameter::InitialMaxData(_) => 0x04,
        TransportParameter::InitialMaxStreamDataBidiLocal(_) => 0x05,
        TransportParameter::InitialMaxStreamDataBidiRemote(_) => 0x06,
        TransportParameter::InitialMaxStreamDataUni(_) => 0x07,
        TransportParameter::InitialMaxStreamsBidi(_) => 0x08,
        TransportParameter::InitialMaxStreamsUni(_) => 0x09,
        TransportParameter::AckDelayExponent(_) => 0x0a,
        TransportParameter::MaxAckDelay(_) => 0x0b,
        TransportParameter::DisableActiveMigration => 0x0c,
        TransportParameter::PreferredAddress(_) => 0x0d,
        TransportParameter::ActiveConnectionIdLimit(_) => 0x0e,
        TransportParameter::InitialSourceConnectionId(_) => 0x0f,
        TransportParameter::RetrySourceConnectionId(_) => 0x10,
    }
}
/// the integer a parameter carries, if it carries one
pub open spec fn param_int(t: TransportParameter) -> Option<u64> {
    match t {
        TransportParameter::MaxIdleTimeout(x) => Some(x),
        TransportParameter::MaxUdpPayloadSize(x) => Some(x),
        TransportParameter::InitialMaxData(x) => Some(x),
        TransportParameter::InitialMaxStreamDataBidiLocal(x) => Some(x),
        TransportParameter::InitialMaxStreamDataBidiRemote(x) => Some(x),
        TransportParameter::InitialMaxStreamDataUni(x) => Some(x),
        TransportParameter::InitialMaxStreamsBidi(x) => Some(x),
        TransportParameter::InitialMaxStreamsUni(x) => Some(x),
        TransportParameter::AckDelayExponent(x) => Some(x),
        TransportParameter::MaxAckDelay(x) => Some(x),
        TransportParameter::ActiveConnectionIdLimit(x) => Some(x),
        _ => None,
    }
}
pub open spec fn param_val(t: TransportParameter) -> Seq<u8> {
    match t {
        TransportParameter::OriginalDestinationConnectionId(x) => x@,
        TransportParameter::InitialSourceConnectionId(x) => x@,
        TransportParameter::RetrySourceConnectionId(x) => x@,
        TransportParameter::StatelessResetToken(x) => x@,
        TransportParameter::DisableActiveMigration => Seq::empty(),
        TransportParameter::PreferredAddress(x) => e_pref(x),
        _ => e_varint(param_int(t)->0 as nat),
    }
}
/// what can be encoded: integers below 2^62, values whose length has a varint, ids whose length has a byte
pub open spec fn param_ok(t: TransportParameter) -> bool {
    (param_int(t) is Some ==> varint_ok(param_int(t)->0 as nat)) && varint_ok(param_val(t).len())
}
pub open spec fn param_sized(t: TransportParameter) -> bool { t is PreferredAddress ==> pref_ok(t->PreferredAddress_0) }
pub open spec fn e_param(t: TransportParameter) -> Seq<u8> {
    e_varint(param_id(t) as nat) + e_varint(param_val(t).len()) + param_val(t)
}
} // verus!
