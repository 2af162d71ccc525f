@clone packet::VersionNegotiationHeaderUnionFields
ensures r.destination_connection_id@ == self.destination_connection_id@, r.source_connection_id@ == self.source_connection_id@,

@clone packet::LongPacketHeader
ensures r == *self,

@fn packet::xor_pn_protection -> r C07
ensures final(pn_bytes)@.len() == old(pn_bytes)@.len(), r is Ok <==> old(pn_bytes)@.len() <= 4,
    r is Ok ==> final(pn_bytes)@ =~= pn_xor(old(pn_bytes)@, mask@, old(pn_bytes)@.len()), r is Err ==> final(pn_bytes)@ == old(pn_bytes)@,
@attr
#[verifier::loop_isolation(false)]
@pre
let ghost p0 = pn_bytes@;
@loop 0
invariant pn_bytes@.len() == p0.len(), forall|j: int| 0 <= j < IT.index() ==> #[trigger] pn_bytes@[j] == p0[j] ^ mask@[j + 1], forall|j: int| IT.index() <= j < p0.len() ==> #[trigger] pn_bytes@[j] == p0[j],

@fn packet::LongPacketHeader::from_connection -> r C10 C09
requires conn_wf(*connection),
ensures r is Ok <==> connection.scid is Some,
    r is Ok ==> long_v(r->Ok_0) == conn_long(*connection, header_byte) && long_wf(r->Ok_0) && !r->Ok_0.is_protected,

@fn packet::LongPacketHeader::from_stream -> r C06
ensures match p_long(old(stream).bytes(), header_byte) {
    Some((v, rest)) => r is Ok && r->Ok_0.header_byte == header_byte && long_v(r->Ok_0) == v && final(stream).bytes() == rest && long_wf(r->Ok_0) && long_ids(r->Ok_0) && r->Ok_0.is_protected == has_protection(header_byte, v.version),
    None => r is Err,
},
@pre
broadcast use {group_bytes, group_packet};

@fn packet::LongPacketHeader::to_bytes -> r C06
requires long_wf(*self),
ensures r@ =~= e_long(long_v(*self)),
@pre
broadcast use {group_bytes, group_packet};

@fn packet::LongPacketHeader::pn_length_from_header_byte -> r C07
ensures r == header_byte % 4 + 1,
@pre
broadcast use group_packet;

@fn packet::LongPacketHeader::remove_protection -> r C07
ensures *final(self) == (LongPacketHeader { header_byte: if old(self).is_protected { old(self).header_byte ^ (mask[0] & 0x0f) } else { old(self).header_byte }, is_protected: false, ..*old(self) }),

@fn packet::LongPacketHeader::add_protection -> r C07
ensures *final(self) == (LongPacketHeader { header_byte: if old(self).is_protected { old(self).header_byte } else { old(self).header_byte ^ (mask[0] & 0x0f) }, is_protected: true, ..*old(self) }),

@fn packet::LongPacketHeader::packet_number_length -> r C07
ensures r is Ok <==> !self.is_protected, r is Ok ==> r->Ok_0 == pn_len(self.header_byte),
@pre
broadcast use group_packet;

@fn packet::LongPacketHeader::packet_type -> r C06 C15
ensures r == ptype(self.header_byte, self.version),
@pre
broadcast use group_packet;

@fn packet::PacketVersionNegotiation::from_stream -> r C15
ensures match p_vn(old(stream).bytes()) {
    Some((v, rest)) => r is Ok && vn_v(r->Ok_0) == v && final(stream).bytes() == rest,
    None => r is Err,
},
@attr
#[verifier::loop_isolation(false)]
@pre
hide(p_long); hide(e_long_tail); hide(long_wf); hide(long_ids); hide(ptype); hide(has_protection);
broadcast use {group_packet_io, lemma_mod4, lemma_bev_ext_b, lemma_bev_bound_lit};
let ghost s0 = stream.bytes();
let ghost ws = left(p_long(s0.skip(1), s0[0]));
@alloc (s0.len() as int)
@loop 0
invariant supported_versions@ =~= words(ws, IT.index() as nat),

@fn packet::PacketInitial::new -> r sender C09 C10
requires conn_wf(*old(connection)), space(*old(connection), PacketNumberSpace::Initial).next_pn < max_pn() - 1,
ensures only_pn_changed(*old(connection), *final(connection), PacketNumberSpace::Initial),
    space(*final(connection), PacketNumberSpace::Initial).next_pn >= space(*old(connection), PacketNumberSpace::Initial).next_pn,
    old(connection).scid is Some && small_pn(space(*final(connection), PacketNumberSpace::Initial).next_pn, space(*old(connection), PacketNumberSpace::Initial).largest_local_ack) ==> r is Ok,
    r is Ok ==> r->Ok_0.packet_number == space(*final(connection), PacketNumberSpace::Initial).next_pn && r->Ok_0.packet_number > space(*old(connection), PacketNumberSpace::Initial).next_pn
        && pn_trunc_ok(r->Ok_0.packet_number, space(*old(connection), PacketNumberSpace::Initial).largest_local_ack, r->Ok_0.packet_number_bytes@)
        && 1 <= r->Ok_0.packet_number_bytes@.len() <= 4
        && long_v(r->Ok_0.header) == conn_long(*old(connection), (0xc0 + r->Ok_0.packet_number_bytes@.len() - 1) as u8) && long_wf(r->Ok_0.header) && !r->Ok_0.header.is_protected
        && r->Ok_0.token@ == (match token { Some(x) => x@, None => Seq::empty() }) && r->Ok_0.packet_payload == packet_payload,
@pre
broadcast use {group_bytes, group_packet};

@fn packet::PacketInitial::new_header_byte -> r sender C09 C10
requires pn_length_bits < 4,
ensures r == 0xc0 + pn_length_bits,
@pre
proof { lemma_first_byte(pn_length_bits); }

@fn packet::PacketInitial::validate_payload -> r C10
ensures r is Ok,

@fn packet::PacketInitial::from_stream -> r C10 C12 C15
requires conn_wf(*connection),
ensures match p_initial(*connection, old(stream).bytes()) {
    Some((v, rest)) => r is Ok && initial_v(r->Ok_0) == v && final(stream).bytes() == rest,
    None => r is Err,
},
@pre
hide(p_long); hide(e_long_tail); hide(p_varint); hide(vacc); hide(unseal); hide(seal); hide(p_frames); hide(be_bytes); hide(bev); hide(hp_mask_v); hide(decode_pn); hide(pn_xor); hide(p_frames); hide(e_frames); hide(e_varint); hide(frame_v); hide(ptype);
broadcast use group_packet_io;

@fn packet::PacketInitial::serialize -> r sender C10 C12
requires conn_wf(*connection), out_wf(self.header, self.packet_number_bytes@, self.packet_payload@),
ensures r is Ok <==> sendable(local_keys(*connection, PacketNumberSpace::Initial), self.packet_number_bytes@, frames_v(self.packet_payload@)) && varint_ok(self.token@.len()),
    r is Ok ==> r->Ok_0@ =~= e_initial(local_keys(*connection, PacketNumberSpace::Initial)->0, long_v(self.header), self.token@, self.packet_number, self.packet_number_bytes@, frames_v(self.packet_payload@)),
@pre
hide(p_long); hide(e_long_tail); hide(p_varint); hide(vacc); hide(unseal); hide(seal); hide(p_frames); hide(be_bytes); hide(bev); hide(hp_mask_v); hide(decode_pn); hide(pn_xor); hide(p_frames); hide(e_frames); hide(e_varint); hide(frame_v); hide(ptype);
broadcast use group_packet_io;

@fn packet::PacketZeroRtt::from_stream -> r C10 C12 C15
requires conn_wf(*connection),
ensures match p_zero_rtt(*connection, old(stream).bytes()) {
    Some((v, rest)) => r is Ok && zero_rtt_v(r->Ok_0) == v && final(stream).bytes() == rest,
    None => r is Err,
},
@pre
hide(p_long); hide(e_long_tail); hide(p_varint); hide(vacc); hide(unseal); hide(seal); hide(p_frames); hide(be_bytes); hide(bev); hide(hp_mask_v); hide(decode_pn); hide(pn_xor); hide(p_frames); hide(e_frames); hide(e_varint); hide(frame_v); hide(ptype);
broadcast use group_packet_io;

@fn packet::PacketHandshake::new -> r sender C09 C10
requires conn_wf(*old(connection)), space(*old(connection), PacketNumberSpace::Handshake).next_pn < max_pn() - 1,
ensures only_pn_changed(*old(connection), *final(connection), PacketNumberSpace::Handshake),
    space(*final(connection), PacketNumberSpace::Handshake).next_pn >= space(*old(connection), PacketNumberSpace::Handshake).next_pn,
    old(connection).scid is Some && small_pn(space(*final(connection), PacketNumberSpace::Handshake).next_pn, space(*old(connection), PacketNumberSpace::Handshake).largest_local_ack) ==> r is Ok,
    r is Ok ==> r->Ok_0.packet_number == space(*final(connection), PacketNumberSpace::Handshake).next_pn && r->Ok_0.packet_number > space(*old(connection), PacketNumberSpace::Handshake).next_pn
        && pn_trunc_ok(r->Ok_0.packet_number, space(*old(connection), PacketNumberSpace::Handshake).largest_local_ack, r->Ok_0.packet_number_bytes@)
        && 1 <= r->Ok_0.packet_number_bytes@.len() <= 4
        && long_v(r->Ok_0.header) == conn_long(*old(connection), (0xe0 + r->Ok_0.packet_number_bytes@.len() - 1) as u8) && long_wf(r->Ok_0.header) && !r->Ok_0.header.is_protected
        && r->Ok_0.packet_payload == packet_payload,
@pre
broadcast use {group_bytes, group_packet};

@fn packet::PacketHandshake::new_header_byte -> r sender C09 C10
requires pn_length_bits < 4,
ensures r == 0xe0 + pn_length_bits,
@pre
proof { lemma_first_byte(pn_length_bits); }

@fn packet::PacketHandshake::validate_payload -> r C10
ensures r is Ok,

@fn packet::PacketHandshake::from_stream -> r C10 C12 C15
requires conn_wf(*connection),
ensures match p_handshake(*connection, old(stream).bytes()) {
    Some((v, rest)) => r is Ok && handshake_v(r->Ok_0) == v && final(stream).bytes() == rest,
    None => r is Err,
},
@pre
hide(p_long); hide(e_long_tail); hide(p_varint); hide(vacc); hide(unseal); hide(seal); hide(p_frames); hide(be_bytes); hide(bev); hide(hp_mask_v); hide(decode_pn); hide(pn_xor); hide(p_frames); hide(e_frames); hide(e_varint); hide(frame_v); hide(ptype);
broadcast use group_packet_io;

@fn packet::PacketHandshake::serialize -> r sender C10 C12
requires conn_wf(*connection), out_wf(self.header, self.packet_number_bytes@, self.packet_payload@),
ensures r is Ok <==> sendable(local_keys(*connection, PacketNumberSpace::Handshake), self.packet_number_bytes@, frames_v(self.packet_payload@)),
    r is Ok ==> r->Ok_0@ =~= e_handshake(local_keys(*connection, PacketNumberSpace::Handshake)->0, long_v(self.header), self.packet_number, self.packet_number_bytes@, frames_v(self.packet_payload@)),
@pre
hide(p_long); hide(e_long_tail); hide(p_varint); hide(vacc); hide(unseal); hide(seal); hide(p_frames); hide(be_bytes); hide(bev); hide(hp_mask_v); hide(decode_pn); hide(pn_xor); hide(p_frames); hide(e_frames); hide(e_varint); hide(frame_v); hide(ptype);
broadcast use group_packet_io;

@fn packet::PacketRetry::from_stream -> r C15
ensures r is Err,

@fn packet::ShortPacketHeader::from_stream -> r C06
ensures match p_short(old(stream).bytes(), header_byte) {
    Some((v, rest)) => r is Ok && short_v(r->Ok_0) == v && final(stream).bytes() == rest && r->Ok_0.is_protected && cid_nat(r->Ok_0.destination_connection_id) == be(v.dcid),
    None => r is Err,
},
@pre
broadcast use {group_bytes, group_packet};

@fn packet::ShortPacketHeader::spin_bit -> r C07
ensures r is Ok <==> !self.is_protected, r is Ok ==> r->Ok_0 == ((self.header_byte / 32) % 2 == 1),
@pre
broadcast use group_packet;

@fn packet::ShortPacketHeader::reserved_bits -> r C07
ensures r is Ok <==> !self.is_protected, r is Ok ==> r->Ok_0 == (self.header_byte / 8) % 4,
@pre
broadcast use group_packet;

@fn packet::ShortPacketHeader::key_phase -> r C07
ensures r is Ok <==> !self.is_protected, r is Ok ==> r->Ok_0 == ((self.header_byte / 4) % 2 == 1),
@pre
broadcast use group_packet;

@fn packet::ShortPacketHeader::packet_number_length -> r C07
ensures r is Ok <==> !self.is_protected, r is Ok ==> r->Ok_0 == pn_len(self.header_byte),
@pre
broadcast use group_packet;

@fn packet::ShortPacketHeader::packet_type -> r C06
ensures r is OneRtt,

@fn packet::ShortPacketHeader::remove_protection -> r C07
ensures *final(self) == (ShortPacketHeader { header_byte: if old(self).is_protected { old(self).header_byte ^ (mask[0] & 0x1f) } else { old(self).header_byte }, is_protected: false, ..*old(self) }),

@fn packet::ShortPacketHeader::add_protection -> r C07
ensures *final(self) == (ShortPacketHeader { header_byte: if old(self).is_protected { old(self).header_byte } else { old(self).header_byte ^ (mask[0] & 0x1f) }, is_protected: true, ..*old(self) }),

@fn packet::ShortPacketHeader::to_bytes -> r C06
ensures r@ =~= e_short(short_v(*self)),
@pre
broadcast use {group_bytes, group_packet};

@fn packet::PacketOneRtt::from_stream -> r C10 C12 C15
requires conn_wf(*connection),
ensures match p_one_rtt(*connection, old(stream).bytes()) {
    Some((v, rest)) => r is Ok && one_rtt_v(r->Ok_0) == v && final(stream).bytes() == rest,
    None => r is Err,
},
@pre
hide(p_long); hide(e_long_tail); hide(p_varint); hide(vacc); hide(unseal); hide(seal); hide(p_frames); hide(be_bytes); hide(bev); hide(hp_mask_v); hide(decode_pn); hide(pn_xor); hide(p_frames); hide(e_frames); hide(e_varint); hide(frame_v); hide(ptype);
broadcast use group_packet_io;

@fn packet::PacketHeader::get_destination_id -> r C06 C16
ensures r == (match *self { PacketHeader::Short(x) => x.destination_connection_id, PacketHeader::Long(x) => x.destination_connection_id }),

@fn packet::PacketHeader::get_destination_id_length -> r C06 C16
ensures r == (match *self { PacketHeader::Short(x) => 8u8, PacketHeader::Long(x) => x.destination_connection_id_length }),

@fn packet::PacketHeader::get_packet_type -> r C06 C16
ensures r == (match *self { PacketHeader::Short(x) => PacketType::OneRtt, PacketHeader::Long(x) => ptype(x.header_byte, x.version) }),

@fn packet::next_header_from_stream -> r C06
ensures match p_header(old(stream).bytes()) {
    Some((v, rest)) => r is Ok && header_v(r->Ok_0) == v && final(stream).bytes() == rest && header_wf(r->Ok_0),
    None => r is Err,
},
@pre
broadcast use {group_bytes, group_packet};

@fn packet::decode_next_packet -> r C15
requires conn_wf(*connection),
ensures match p_packet(*connection, old(stream).bytes()) {
    Some((v, rest)) => r is Ok && packet_v(r->Ok_0) == v && final(stream).bytes() == rest,
    None => r is Err,
},
@pre
hide(p_initial); hide(p_zero_rtt); hide(p_handshake); hide(p_one_rtt); hide(p_vn); hide(p_long); hide(p_short); hide(frames_v); hide(long_wf); hide(long_ids);

@fn packet::decode_packets -> r C15
requires conn_wf(*connection),
ensures match p_packets(*connection, old(stream).bytes()) {
    Some(v) => r is Ok && packets_v(r->Ok_0@) == v,
    None => r is Err,
},
@attr
#[verifier::loop_isolation(false)]
@pre
broadcast use {group_bytes, group_packet, group_packets};
let ghost s0 = stream.bytes();
@loop 0
invariant p_packets(*connection, s0) == then_packets(packets_v(rv@), p_packets(*connection, stream.bytes())),
decreases stream.bytes().len(),
