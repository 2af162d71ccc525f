// child of crate::frame
#![allow(dead_code, unused_imports)]
use super::*;
use crate::utils::{make_result_stream, U160};
use crate::vrf::{self, *};
use crate::vcheck;

fn id(b: &[u8; 20]) -> U160 { U160 { idx0: u32::from_be_bytes([b[0], b[1], b[2], b[3]]), idx1: b[4..].iter().fold(0u128, |a, x| a << 8 | *x as u128) } }
fn un(u: &U160) -> [u8; 20] { let mut o = [0u8; 20]; o[..4].copy_from_slice(&u.idx0.to_be_bytes()); o[4..].copy_from_slice(&u.idx1.to_be_bytes()); o }

pub fn real(f: &RF) -> Frame {
    match f.clone() {
        RF::Padding => Frame::Padding, RF::Ping => Frame::Ping, RF::Done => Frame::HandshakeDone,
        RF::Ack { largest, delay, count, first, ranges, ecn } => Frame::Ack(FrameAck { largest_acknowledged: largest, ack_delay: delay, ack_range_count: count, first_ack_range: first,
            ack_range: ranges.iter().map(|(a, b)| AckRange { gap: *a, ack_range_length: *b }).collect(),
            ecn_counts: ecn.map(|e| EcnCounts { ect0_count: e[0], ect1_count: e[1], ecn_ce_count: e[2] }) }),
        RF::Reset(a, b, c) => Frame::ResetStream(FrameResetStream { stream_id: a, application_protocol_error_code: b, final_size: c }),
        RF::Stop(a, b) => Frame::StopSending(FrameStopSending { stream_id: a, application_protocol_error_code: b }),
        RF::Crypto { off, len, data } => Frame::Crypto(FrameCrypto { offset: off, length: len, crypto_data: data }),
        RF::NewToken { len, data } => Frame::NewToken(FrameNewToken { token_length: len, token: data }),
        RF::Stream { id, off, len, data, fin } => Frame::Stream(FrameStream { stream_id: id, offset: off, length: len, stream_data: data, is_fin: fin }),
        RF::MaxData(a) => Frame::MaxData(FrameMaxData { maximum_data: a }),
        RF::MaxStreamData(a, b) => Frame::MaxStreamData(FrameMaxStreamData { stream_id: a, maximum_stream_data: b }),
        RF::MaxStreams(a, u) => Frame::MaxStreams(FrameMaxStreams { maximum_streams: a, is_unidirectional: u }),
        RF::DataBlocked(a) => Frame::DataBlocked(FrameDataBlocked { maximum_data: a }),
        RF::StreamDataBlocked(a, b) => Frame::StreamDataBlocked(FrameStreamDataBlocked { stream_id: a, maximum_stream_data: b }),
        RF::StreamsBlocked(a, u) => Frame::StreamsBlocked(FrameStreamsBlocked { maximum_streams: a, is_unidirectional_limit: u }),
        RF::Ncid { seq, rpt, len, cid, tok } => Frame::NewConnectionId(FrameNewConnectionId { sequence_number: seq, retire_prior_to: rpt, length: len, connection_id: id(&cid), stateless_reset_token: tok }),
        RF::Retire(a) => Frame::RetireConnectionId(FrameRetireConnectionId { sequence_number: a }),
        RF::PathCh(a) => Frame::PathChallenge(FramePathChallenge { data: a }),
        RF::PathResp(a) => Frame::PathResponse(FramePathResponse { data: a }),
        RF::Close { code, ft, len, data, app } => Frame::ConnectionClose(FrameConnectionClose { error_code: code, frame_type: ft, reason_phrase_length: len, reason_phrase: data, is_application_error: app }),
    }
}
pub fn view(f: &Frame) -> RF {
    match f {
        Frame::Padding => RF::Padding, Frame::Ping => RF::Ping, Frame::HandshakeDone => RF::Done,
        Frame::Ack(x) => RF::Ack { largest: x.largest_acknowledged, delay: x.ack_delay, count: x.ack_range_count, first: x.first_ack_range,
            ranges: x.ack_range.iter().map(|r| (r.gap, r.ack_range_length)).collect(), ecn: x.ecn_counts.as_ref().map(|e| [e.ect0_count, e.ect1_count, e.ecn_ce_count]) },
        Frame::ResetStream(x) => RF::Reset(x.stream_id, x.application_protocol_error_code, x.final_size),
        Frame::StopSending(x) => RF::Stop(x.stream_id, x.application_protocol_error_code),
        Frame::Crypto(x) => RF::Crypto { off: x.offset, len: x.length, data: x.crypto_data.clone() },
        Frame::NewToken(x) => RF::NewToken { len: x.token_length, data: x.token.clone() },
        Frame::Stream(x) => RF::Stream { id: x.stream_id, off: x.offset, len: x.length, data: x.stream_data.clone(), fin: x.is_fin },
        Frame::MaxData(x) => RF::MaxData(x.maximum_data),
        Frame::MaxStreamData(x) => RF::MaxStreamData(x.stream_id, x.maximum_stream_data),
        Frame::MaxStreams(x) => RF::MaxStreams(x.maximum_streams, x.is_unidirectional),
        Frame::DataBlocked(x) => RF::DataBlocked(x.maximum_data),
        Frame::StreamDataBlocked(x) => RF::StreamDataBlocked(x.stream_id, x.maximum_stream_data),
        Frame::StreamsBlocked(x) => RF::StreamsBlocked(x.maximum_streams, x.is_unidirectional_limit),
        Frame::NewConnectionId(x) => RF::Ncid { seq: x.sequence_number, rpt: x.retire_prior_to, len: x.length, cid: un(&x.connection_id), tok: x.stateless_reset_token },
        Frame::RetireConnectionId(x) => RF::Retire(x.sequence_number),
        Frame::PathChallenge(x) => RF::PathCh(x.data),
        Frame::PathResponse(x) => RF::PathResp(x.data),
        Frame::ConnectionClose(x) => RF::Close { code: x.error_code, ft: x.frame_type, len: x.reason_phrase_length, data: x.reason_phrase.clone(), app: x.is_application_error },
    }
}
pub fn views(f: &[Frame]) -> Vec<RF> { f.iter().map(view).collect() }
pub fn reals(f: &[RF]) -> Vec<Frame> { f.iter().map(real).collect() }

/// Frames as the public constructors make them.
fn made(g: &mut G) -> (Frame, RF) {
    let (a, b, c, u) = (g.vint_over(), g.vint_over(), g.vint_over(), g.bool());
    let d = g.blob();
    let n = d.len() as u64;
    let cid: [u8; 20] = { let mut x = [0u8; 20]; let y: [u8; 8] = g.arr(); x[12..].copy_from_slice(&y); x };
    let t = g.u128();
    match g.below(18) {
        0 => (Frame::ResetStream(FrameResetStream::new(a, b, c)), RF::Reset(a, b, c)),
        1 => (Frame::StopSending(FrameStopSending::new(a, b)), RF::Stop(a, b)),
        2 => (Frame::Crypto(FrameCrypto::new(d.clone())), RF::Crypto { off: 0, len: n, data: d }),
        3 => (Frame::NewToken(FrameNewToken::new(d.clone())), RF::NewToken { len: n, data: d }),
        4 => (Frame::Stream(FrameStream::new(a, d.clone(), u)), RF::Stream { id: a, off: 0, len: n, data: d, fin: u }),
        5 => (Frame::MaxData(FrameMaxData::new(a)), RF::MaxData(a)),
        6 => (Frame::MaxStreamData(FrameMaxStreamData::new(a, b)), RF::MaxStreamData(a, b)),
        7 => (Frame::MaxStreams(FrameMaxStreams::new(a, u)), RF::MaxStreams(a, u)),
        8 => (Frame::DataBlocked(FrameDataBlocked::new(a)), RF::DataBlocked(a)),
        9 => (Frame::StreamDataBlocked(FrameStreamDataBlocked::new(a, b)), RF::StreamDataBlocked(a, b)),
        10 => (Frame::StreamsBlocked(FrameStreamsBlocked::new(a, u)), RF::StreamsBlocked(a, u)),
        11 => (Frame::NewConnectionId(FrameNewConnectionId::new(a, b, id(&cid), t)), RF::Ncid { seq: a, rpt: b, len: 8, cid, tok: t }),
        12 => (Frame::RetireConnectionId(FrameRetireConnectionId::new(a)), RF::Retire(a)),
        13 => (Frame::PathChallenge(FramePathChallenge::new(a)), RF::PathCh(a)),
        14 => (Frame::PathResponse(FramePathResponse::new(a)), RF::PathResp(a)),
        15 => (Frame::ConnectionClose(FrameConnectionClose::new_application_error(a, d.clone())), RF::Close { code: a, ft: None, len: n, data: d, app: true }),
        16 => (Frame::ConnectionClose(FrameConnectionClose::new_error(a, b, d.clone())), RF::Close { code: a, ft: Some(b), len: n, data: d, app: false }),
        _ => (Frame::HandshakeDone, RF::Done),
    }
}

pub fn trial(p: &str, g: &mut G) -> V { match p { "C03" => c03(g), "C04" => c04(g), "C05" => c05(g), _ => Ok(()) } }

fn short(x: &impl std::fmt::Debug) -> String { let s = format!("{:?}", x); if s.len() > 600 { format!("{}..", s.chars().take(600).collect::<String>()) } else { s } }

fn c03(g: &mut G) -> V {
    let (f, w) = made(g);
    vcheck!(view(&f) == w, "constructor made {} instead of {}", short(&view(&f)), short(&w));
    let fs = if g.one_in(3) { vec![w] } else { g.frames(true) };
    let end = g.bool();
    let got = serialize_frames(&reals(&fs), end);
    let want = vrf::enc_frames(&fs, end);
    match (got, want) {
        (Ok(a), Some(b)) => vcheck!(a == b, "serialize_frames({}, {}) = {}, expected {}", short(&fs), end, vrf::hex(&a), vrf::hex(&b)),
        (Err(_), None) => {}
        (a, b) => return Err(format!("serialize_frames({}, {}) = {}, expected {}", short(&fs), end, short(&a.map(|x| vrf::hex(&x))), short(&b.map(|x| vrf::hex(&x))))),
    }
    Ok(())
}

fn c04(g: &mut G) -> V {
    let b = g.frame_bytes();
    let mut r = R::new(&b);
    let want = vrf::parse_frame(&mut r);
    let mut s = make_result_stream(&b);
    let got = deserialize_frame(&mut s);
    let left = s.count();
    match (got, want) {
        (Ok(a), Some(w)) => vcheck!(view(&a) == w && left == r.rest().len(), "deserialize_frame({}) = {} with {} bytes left, expected {} with {} left", vrf::hex(&b), short(&view(&a)), left, short(&w), r.rest().len()),
        (Err(_), None) => {}
        (a, w) => return Err(format!("deserialize_frame({}) = {}, expected {}", vrf::hex(&b), short(&a), short(&w))),
    }
    let want = vrf::parse_frames(&b);
    match (deserialize_frames(&mut make_result_stream(&b)), want) {
        (Ok(a), Some(w)) => vcheck!(views(&a) == w, "deserialize_frames({}) = {}, expected {}", vrf::hex(&b), short(&views(&a)), short(&w)),
        (Err(_), None) => {}
        (a, w) => return Err(format!("deserialize_frames({}) = {}, expected {}", vrf::hex(&b), short(&a), short(&w))),
    }
    Ok(())
}

fn c05(g: &mut G) -> V {
    let fs: Vec<RF> = g.frames(false);
    let (f, w) = made(g);
    if vrf::enc_frame(&w, false).is_some() {
        let b = serialize_frames(&[f], false).map_err(|e| format!("serializing {} failed: {:?}", short(&w), e))?;
        let k = deserialize_frames(&mut make_result_stream(&b)).map_err(|e| format!("parsing back {} failed: {:?}", short(&w), e))?;
        vcheck!(views(&k) == vec![w.clone()], "round trip of {} gave {}", short(&w), short(&views(&k)));
    }
    let end = g.bool();
    let b = serialize_frames(&reals(&fs), end).map_err(|e| format!("serializing {} failed: {:?}", short(&fs), e))?;
    let k = deserialize_frames(&mut make_result_stream(&b)).map_err(|e| format!("parsing back {} ({}) failed: {:?}", short(&fs), vrf::hex(&b), e))?;
    vcheck!(views(&k) == fs, "round trip of {} gave {}", short(&fs), short(&views(&k)));
    Ok(())
}
