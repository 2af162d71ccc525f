@fn frame::EcnCounts::from_datagram -> r  C04
ensures match p_varint3(old(datagram).bytes()) {
    Some((v, rest)) => r is Ok && ecn_v(r->Ok_0) == v && final(datagram).bytes() == rest,
    None => r is Err,
},
@pre
broadcast use {group_bytes, group_frame};

@fn frame::AckRange::from_datagram -> r  C04
ensures match p_varint2(old(datagram).bytes()) {
    Some((v, rest)) => r is Ok && range_v(r->Ok_0) == v && final(datagram).bytes() == rest,
    None => r is Err,
},
@pre
broadcast use {group_bytes, group_frame};

@fn frame::FrameAck::from_datagram -> r  C04
ensures match p_ack(old(datagram).bytes(), type_byte % 2 == 1) {
    Some((v, rest)) => r is Ok && ack_v(r->Ok_0) == v && final(datagram).bytes() == rest,
    None => r is Err,
},
@attr
#[verifier::loop_isolation(false)]
@pre
broadcast use {group_bytes, group_frame};
let ghost s0 = left(p_varint(left(p_varint3(datagram.bytes()))));
@loop 0
invariant p_ranges(s0, IT.index() as nat) is Some, got(p_ranges(s0, IT.index() as nat)) == ranges_v(ack_range@), left(p_ranges(s0, IT.index() as nat)) == datagram.bytes(),

@fn frame::FrameResetStream::from_datagram -> r  C04
ensures match p_reset_stream(old(datagram).bytes()) {
    Some((v, rest)) => r is Ok && reset_stream_v(r->Ok_0) == v && final(datagram).bytes() == rest,
    None => r is Err,
},
@pre
broadcast use {group_bytes, group_frame};

@fn frame::FrameStopSending::from_datagram -> r  C04
ensures match p_stop_sending(old(datagram).bytes()) {
    Some((v, rest)) => r is Ok && stop_sending_v(r->Ok_0) == v && final(datagram).bytes() == rest,
    None => r is Err,
},
@pre
broadcast use {group_bytes, group_frame};

@fn frame::FrameCrypto::from_datagram -> r  C04
ensures match p_crypto(old(datagram).bytes()) {
    Some((v, rest)) => r is Ok && crypto_v(r->Ok_0) == v && final(datagram).bytes() == rest,
    None => r is Err,
},
@pre
broadcast use {group_bytes, group_frame};

@fn frame::FrameNewToken::from_datagram -> r  C04
ensures match p_new_token(old(datagram).bytes()) {
    Some((v, rest)) => r is Ok && new_token_v(r->Ok_0) == v && final(datagram).bytes() == rest,
    None => r is Err,
},
@pre
broadcast use {group_bytes, group_frame};

@fn frame::FrameNewConnectionId::from_datagram -> r  C04
ensures match p_new_cid(old(datagram).bytes()) {
    Some((v, rest)) => r is Ok && new_cid_v(r->Ok_0) == v && final(datagram).bytes() == rest,
    None => r is Err,
},
@pre
broadcast use {group_bytes, group_frame};

@fn frame::FrameMaxData::from_datagram -> r  C04
ensures match p_body(0x10, old(datagram).bytes()) {
    Some((v, rest)) => r is Ok && max_data_v(r->Ok_0) == v && final(datagram).bytes() == rest,
    None => r is Err,
},
@pre
broadcast use {group_bytes, group_frame};

@fn frame::FrameMaxStreamData::from_datagram -> r  C04
ensures match p_body(0x11, old(datagram).bytes()) {
    Some((v, rest)) => r is Ok && max_stream_data_v(r->Ok_0) == v && final(datagram).bytes() == rest,
    None => r is Err,
},
@pre
broadcast use {group_bytes, group_frame};

@fn frame::FrameDataBlocked::from_datagram -> r  C04
ensures match p_body(0x14, old(datagram).bytes()) {
    Some((v, rest)) => r is Ok && data_blocked_v(r->Ok_0) == v && final(datagram).bytes() == rest,
    None => r is Err,
},
@pre
broadcast use {group_bytes, group_frame};

@fn frame::FrameStreamDataBlocked::from_datagram -> r  C04
ensures match p_body(0x15, old(datagram).bytes()) {
    Some((v, rest)) => r is Ok && stream_data_blocked_v(r->Ok_0) == v && final(datagram).bytes() == rest,
    None => r is Err,
},
@pre
broadcast use {group_bytes, group_frame};

@fn frame::FrameRetireConnectionId::from_datagram -> r  C04
ensures match p_body(0x19, old(datagram).bytes()) {
    Some((v, rest)) => r is Ok && retire_cid_v(r->Ok_0) == v && final(datagram).bytes() == rest,
    None => r is Err,
},
@pre
broadcast use {group_bytes, group_frame};

@fn frame::FramePathChallenge::from_datagram -> r  C04
ensures match p_body(0x1a, old(datagram).bytes()) {
    Some((v, rest)) => r is Ok && path_challenge_v(r->Ok_0) == v && final(datagram).bytes() == rest,
    None => r is Err,
},
@pre
broadcast use {group_bytes, group_frame};

@fn frame::FramePathResponse::from_datagram -> r  C04
ensures match p_body(0x1b, old(datagram).bytes()) {
    Some((v, rest)) => r is Ok && path_response_v(r->Ok_0) == v && final(datagram).bytes() == rest,
    None => r is Err,
},
@pre
broadcast use {group_bytes, group_frame};

@fn frame::FrameMaxStreams::from_datagram -> r  C04
ensures match p_body((0x12 + type_byte % 2) as u64, old(datagram).bytes()) {
    Some((v, rest)) => r is Ok && max_streams_v(r->Ok_0) == v && final(datagram).bytes() == rest,
    None => r is Err,
},
@pre
broadcast use {group_bytes, group_frame};

@fn frame::FrameStreamsBlocked::from_datagram -> r  C04
ensures match p_body((0x16 + type_byte % 2) as u64, old(datagram).bytes()) {
    Some((v, rest)) => r is Ok && streams_blocked_v(r->Ok_0) == v && final(datagram).bytes() == rest,
    None => r is Err,
},
@pre
broadcast use {group_bytes, group_frame};

@fn frame::FrameStream::from_datagram -> r  C04
ensures match p_stream(old(datagram).bytes(), (type_byte / 4) % 2 == 1, (type_byte / 2) % 2 == 1, type_byte % 2 == 1) {
    Some((v, rest)) => r is Ok && stream_v(r->Ok_0) == v && final(datagram).bytes() == rest,
    None => r is Err,
},
@pre
broadcast use {group_bytes, group_frame};

@fn frame::FrameConnectionClose::from_datagram -> r  C04
ensures match p_close(old(datagram).bytes(), type_byte % 2 == 1) {
    Some((v, rest)) => r is Ok && close_v(r->Ok_0) == v && final(datagram).bytes() == rest,
    None => r is Err,
},
@pre
broadcast use {group_bytes, group_frame};

@fn frame::deserialize_frame -> r  C04
ensures match p_frame(old(datagram).bytes()) {
    Some((v, rest)) => r is Ok && frame_v(r->Ok_0) == v && final(datagram).bytes() == rest,
    None => r is Err,
},
@pre
hide(p_ack); hide(p_reset_stream); hide(p_stop_sending); hide(p_crypto); hide(p_new_token); hide(p_stream); hide(p_new_cid); hide(p_close); hide(p_varint); hide(p_varint2); hide(p_int);
hide(ack_v); hide(stream_v); hide(close_v); hide(new_cid_v);

@fn frame::deserialize_frames -> r  C04
ensures match p_frames(old(dataframe).bytes()) {
    Some(v) => r is Ok && frames_v(r->Ok_0@) == v,
    None => r is Err,
},
@attr
#[verifier::loop_isolation(false)]
@pre
broadcast use {group_bytes, group_frame};
let ghost s0 = dataframe.bytes();
@loop 0
invariant p_frames(s0) == then_frames(frames_v(rv@), p_frames(peekable_df.bytes())),
decreases peekable_df.bytes().len(),

@fn frame::EcnCounts::to_bytes -> r sender C03
ensures r is Ok <==> ecn_ok(Some(ecn_v(*self))), r is Ok ==> r->Ok_0@ =~= e_ecn(Some(ecn_v(*self))),
@pre
broadcast use {group_bytes, group_frame};

@fn frame::AckRange::to_bytes -> r sender C03
ensures r is Ok <==> vok(self.gap) && vok(self.ack_range_length), r is Ok ==> r->Ok_0@ =~= e_varint(self.gap as nat) + e_varint(self.ack_range_length as nat),
@pre
broadcast use {group_bytes, group_frame};

@fn frame::FrameAck::to_bytes -> r sender C03
ensures r is Ok <==> encodable(ack_v(*self), false), r is Ok ==> r->Ok_0@ =~= e_frame(ack_v(*self), false),
@attr
#[verifier::loop_isolation(false)]
@pre
hide(e_varint);
broadcast use {group_cat, group_frame};
let ghost rs = ranges_v(self.ack_range@);
@loop 0
invariant fv(tp_ack_range_bytes) =~= e_ranges(rs.take(IT.index() as int)), forall|j: int| 0 <= j < IT.index() ==> vok((#[trigger] rs[j]).0) && vok(rs[j].1),
    IT.index() < rs.len() ==> rs[IT.index() as int] == range_v(self.ack_range@[IT.index() as int]), rs.take(rs.len() as int) =~= rs,

@fn frame::FrameResetStream::to_bytes -> r sender C03
ensures r is Ok <==> encodable(reset_stream_v(*self), false), r is Ok ==> r->Ok_0@ =~= e_frame(reset_stream_v(*self), false),
@pre
broadcast use {group_bytes, group_frame};

@fn frame::FrameStopSending::to_bytes -> r sender C03
ensures r is Ok <==> encodable(stop_sending_v(*self), false), r is Ok ==> r->Ok_0@ =~= e_frame(stop_sending_v(*self), false),
@pre
broadcast use {group_bytes, group_frame};

@fn frame::FrameCrypto::to_bytes -> r sender C03
ensures r is Ok <==> encodable(crypto_v(*self), false), r is Ok ==> r->Ok_0@ =~= e_frame(crypto_v(*self), false),
@pre
broadcast use {group_bytes, group_frame};

@fn frame::FrameNewToken::to_bytes -> r sender C03
ensures r is Ok <==> encodable(new_token_v(*self), false), r is Ok ==> r->Ok_0@ =~= e_frame(new_token_v(*self), false),
@pre
broadcast use {group_bytes, group_frame};

@fn frame::FrameMaxData::to_bytes -> r sender C03
ensures r is Ok <==> encodable(max_data_v(*self), false), r is Ok ==> r->Ok_0@ =~= e_frame(max_data_v(*self), false),
@pre
broadcast use {group_bytes, group_frame};

@fn frame::FrameMaxStreamData::to_bytes -> r sender C03
ensures r is Ok <==> encodable(max_stream_data_v(*self), false), r is Ok ==> r->Ok_0@ =~= e_frame(max_stream_data_v(*self), false),
@pre
broadcast use {group_bytes, group_frame};

@fn frame::FrameMaxStreams::to_bytes -> r sender C03
ensures r is Ok <==> encodable(max_streams_v(*self), false), r is Ok ==> r->Ok_0@ =~= e_frame(max_streams_v(*self), false),
@pre
broadcast use {group_bytes, group_frame};

@fn frame::FrameDataBlocked::to_bytes -> r sender C03
ensures r is Ok <==> encodable(data_blocked_v(*self), false), r is Ok ==> r->Ok_0@ =~= e_frame(data_blocked_v(*self), false),
@pre
broadcast use {group_bytes, group_frame};

@fn frame::FrameStreamDataBlocked::to_bytes -> r sender C03
ensures r is Ok <==> encodable(stream_data_blocked_v(*self), false), r is Ok ==> r->Ok_0@ =~= e_frame(stream_data_blocked_v(*self), false),
@pre
broadcast use {group_bytes, group_frame};

@fn frame::FrameStreamsBlocked::to_bytes -> r sender C03
ensures r is Ok <==> encodable(streams_blocked_v(*self), false), r is Ok ==> r->Ok_0@ =~= e_frame(streams_blocked_v(*self), false),
@pre
broadcast use {group_bytes, group_frame};

@fn frame::FrameRetireConnectionId::to_bytes -> r sender C03
ensures r is Ok <==> encodable(retire_cid_v(*self), false), r is Ok ==> r->Ok_0@ =~= e_frame(retire_cid_v(*self), false),
@pre
broadcast use {group_bytes, group_frame};

@fn frame::FrameConnectionClose::to_bytes -> r sender C03
ensures r is Ok <==> encodable(close_v(*self), false), r is Ok ==> r->Ok_0@ =~= e_frame(close_v(*self), false),
@pre
broadcast use {group_bytes, group_frame};

@fn frame::FrameNewConnectionId::to_bytes -> r sender C03
requires self.length <= 20,
ensures r is Ok <==> encodable(new_cid_v(*self), false), r is Ok ==> r->Ok_0@ =~= e_frame(new_cid_v(*self), false),
@pre
broadcast use {group_bytes, group_frame};

@fn frame::FramePathChallenge::to_bytes -> r sender C03
ensures r@ =~= e_frame(path_challenge_v(*self), false),
@pre
broadcast use {group_bytes, group_frame};

@fn frame::FramePathResponse::to_bytes -> r sender C03
ensures r@ =~= e_frame(path_response_v(*self), false),
@pre
broadcast use {group_bytes, group_frame};

@fn frame::FrameStream::to_bytes -> r sender C03
ensures r is Ok <==> encodable(stream_v(*self), !include_len), r is Ok ==> r->Ok_0@ =~= e_frame(stream_v(*self), !include_len),
@pre
broadcast use {group_bytes, group_frame};

@fn frame::Frame::to_bytes -> r sender C03
requires cid_len_ok(frame_v(*self)),
ensures r is Ok <==> encodable(frame_v(*self), is_df_end), r is Ok ==> r->Ok_0@ =~= e_frame(frame_v(*self), is_df_end),
@pre
broadcast use {group_bytes, group_frame};

@fn frame::serialize_frames -> r sender C03
requires forall|i: int| 0 <= i < frames@.len() ==> cid_len_ok(frame_v(#[trigger] frames@[i])),
ensures r is Ok <==> all_encodable(frames_v(frames@), is_df_end), r is Ok ==> r->Ok_0@ =~= e_frames(frames_v(frames@), is_df_end),
@attr
#[verifier::loop_isolation(false)]
@pre
broadcast use {group_bytes, group_frame};
let ghost fs = frames_v(frames@);
@loop 0
invariant fv(bytes_vec) =~= e_frames_n(fs, is_df_end, IT.index() as nat), forall|j: int| 0 <= j < IT.index() ==> encodable(#[trigger] fs[j], is_df_end && j == fs.len() - 1),
    IT.index() < fs.len() ==> fs[IT.index() as int] == frame_v(frames@[IT.index() as int]),

@fn frame::FrameResetStream::new -> r  C03 C05
ensures reset_stream_v(r) == (FrameV::ResetStream { id: stream_id, code: application_protocol_error_code, size: final_size }),

@fn frame::FrameStopSending::new -> r  C03 C05
ensures stop_sending_v(r) == (FrameV::StopSending { id: stream_id, code: application_protocol_error_code }),

@fn frame::FrameCrypto::new -> r  C03 C05
ensures crypto_v(r) == (FrameV::Crypto { offset: 0, length: crypto_data@.len() as u64, data: crypto_data@ }),

@fn frame::FrameNewToken::new -> r  C03 C05
ensures new_token_v(r) == (FrameV::NewToken { length: token@.len() as u64, token: token@ }),

@fn frame::FrameStream::new -> r  C03 C05
ensures stream_v(r) == (FrameV::Stream { id: stream_id, offset: 0, length: stream_data@.len() as u64, data: stream_data@, fin: is_fin }),

@fn frame::FrameMaxData::new -> r  C03 C05
ensures max_data_v(r) == FrameV::MaxData(maximum_data),

@fn frame::FrameMaxStreamData::new -> r  C03 C05
ensures max_stream_data_v(r) == FrameV::MaxStreamData(stream_id, maximum_stream_data),

@fn frame::FrameMaxStreams::new -> r  C03 C05
ensures max_streams_v(r) == FrameV::MaxStreams(maximum_streams, is_unidirectional),

@fn frame::FrameDataBlocked::new -> r  C03 C05
ensures data_blocked_v(r) == FrameV::DataBlocked(maximum_data),

@fn frame::FrameStreamDataBlocked::new -> r  C03 C05
ensures stream_data_blocked_v(r) == FrameV::StreamDataBlocked(stream_id, maximum_stream_data),

@fn frame::FrameStreamsBlocked::new -> r  C03 C05
ensures streams_blocked_v(r) == FrameV::StreamsBlocked(maximum_streams, is_unidirectional_limit),

@fn frame::FrameNewConnectionId::new -> r  C03 C05
ensures new_cid_v(r) == (FrameV::NewConnectionId { seq: sequence_number, retire: retire_prior_to, length: 8, cid: cid_nat(connection_id), token: stateless_reset_token }),

@fn frame::FrameRetireConnectionId::new -> r  C03 C05
ensures retire_cid_v(r) == FrameV::RetireConnectionId(sequence_number),

@fn frame::FramePathChallenge::new -> r  C03 C05
ensures path_challenge_v(r) == FrameV::PathChallenge(data),

@fn frame::FramePathResponse::new -> r  C03 C05
ensures path_response_v(r) == FrameV::PathResponse(data),

@fn frame::FrameConnectionClose::new_application_error -> r  C03 C05
ensures close_v(r) == (FrameV::Close { code: error_code, ty: None, length: reason_phrase@.len() as u64, reason: reason_phrase@, app: true }),

@fn frame::FrameConnectionClose::new_error -> r  C03 C05
ensures close_v(r) == (FrameV::Close { code: error_code, ty: Some(frame_type), length: reason_phrase@.len() as u64, reason: reason_phrase@, app: false }),

@fn frame::FrameAck::new -> r  C13
requires false,
ensures true,
