@fn connection::PacketNumberSpaceInfo::new -> r C09 C12
ensures fresh_space(r),

@fn connection::truncate_pn -> r C08 C09
requires pn < max_pn(),
ensures r is Ok <==> (match largest_ack { None => pn <= u32::MAX, Some(x) => pn > x }), r is Ok ==> pn_trunc_ok(pn, largest_ack, r->Ok_0@),
@pre
broadcast use {group_bytes, lemma_be_bytes_suffix_b};
proof { lemma_pow256_vals(); if largest_ack is Some && pn > largest_ack->0 { lemma_bitlen_62((pn - largest_ack->0) as nat); lemma_bitlen_31((pn - largest_ack->0) as nat); lemma_trunc_lens((pn - largest_ack->0) as nat); } }

@fn connection::Connection::new -> r sender C12 C09
requires dcid_len <= 20,
ensures r is Ok, conn_wf(r->Ok_0), r->Ok_0.version == version, r->Ok_0.dcid == (dcid, dcid_len), r->Ok_0.scid is None,
    fresh_space(r->Ok_0.handshake_pn_info), fresh_space(r->Ok_0.application_pn_info),
    r->Ok_0.initial_pn_info.largest_remote_ack is None, r->Ok_0.initial_pn_info.largest_local_ack is None, r->Ok_0.initial_pn_info.next_pn == 0,
    local_keys(r->Ok_0, PacketNumberSpace::Initial) == Some(initial_keys(is_server, be_bytes(cid_nat(dcid), dcid_len as nat), version)),
    remote_keys(r->Ok_0, PacketNumberSpace::Initial) == Some(initial_keys(!is_server, be_bytes(cid_nat(dcid), dcid_len as nat), version)),
@pre
broadcast use group_bytes;

@fn connection::Connection::borrow_pn_info -> r C12
ensures *r == space(*self, pn_space),

@fn connection::Connection::borrow_mut_pn_info -> r C12 C09
ensures *r == space(*old(self), pn_space), space(*final(self), pn_space) == *final(r),
    final(self).version == old(self).version, final(self).dcid == old(self).dcid, final(self).scid == old(self).scid,
    !(pn_space is Initial) ==> final(self).initial_pn_info == old(self).initial_pn_info,
    !(pn_space is Handshake) ==> final(self).handshake_pn_info == old(self).handshake_pn_info,
    !(pn_space is Application) ==> final(self).application_pn_info == old(self).application_pn_info,

@fn connection::Connection::borrow_local_tls_secrets -> r C12
ensures r is Ok <==> space(*self, pn_space).local_tls_secrets is Some, r is Ok ==> *r->Ok_0 == space(*self, pn_space).local_tls_secrets->0,

@fn connection::Connection::borrow_remote_tls_secrets -> r C12
ensures r is Ok <==> space(*self, pn_space).remote_tls_secrets is Some, r is Ok ==> *r->Ok_0 == space(*self, pn_space).remote_tls_secrets->0,

@fn connection::Connection::set_scid -> r C16 C10
ensures final(self).scid == Some((scid, scid_len)), final(self).dcid == old(self).dcid, final(self).version == old(self).version,
    final(self).initial_pn_info == old(self).initial_pn_info, final(self).handshake_pn_info == old(self).handshake_pn_info, final(self).application_pn_info == old(self).application_pn_info,

@fn connection::Connection::get_dcid -> r C10
ensures r.0 == self.dcid.0, r.1 == self.dcid.1 as u8,

@fn connection::Connection::get_scid -> r C10
ensures r is Ok <==> self.scid is Some, r is Ok ==> r->Ok_0.0 == (self.scid->0).0 && r->Ok_0.1 == (self.scid->0).1 as u8,

@fn connection::Connection::get_local_hp_mask -> r C12 C07 C10
requires conn_wf(*self),
ensures match (local_keys(*self, pn_space), p_bytes(old(sample_stream).bytes(), 16)) {
    (Some(k), Some((sample, rest))) => r is Ok && r->Ok_0@ == hp_mask_v(k, sample),
    _ => r is Err,
},

@fn connection::Connection::get_remote_hp_mask -> r C12 C07 C10
requires conn_wf(*self),
ensures match (remote_keys(*self, pn_space), p_bytes(old(sample_stream).bytes(), 16)) {
    (Some(k), Some((sample, rest))) => r is Ok && r->Ok_0@ == hp_mask_v(k, sample),
    _ => r is Err,
},

@fn connection::Connection::decrypt_remote_payload -> r C12 C11 C10
requires conn_wf(*self),
ensures match remote_keys(*self, pn_space) {
    Some(k) => match unseal(k, packet_number, associated_data@, payload@) { Some(pt) => r is Ok && r->Ok_0@ == pt, None => r is Err },
    None => r is Err,
},

@fn connection::Connection::encrypt_local_payload -> r sender C12 C11 C10
requires conn_wf(*self),
ensures match local_keys(*self, pn_space) {
    Some(k) => r is Ok && r->Ok_0@ == seal(k, packet_number, associated_data@, payload@),
    None => r is Err,
},

@fn connection::Connection::reconstruct_remote_pn -> r C08 C10
requires conn_wf(*self), 1 <= pn_lsb@.len() <= 4,
ensures r is Ok, r->Ok_0 == decode_pn(space(*self, pn_space).largest_remote_ack, be(pn_lsb@), pn_lsb@.len()),
@pre
broadcast use {group_bytes, group_conn};
proof { lemma_pow256_vals(); lemma_bev_bound(pn_lsb@, pn_lsb@.len() as int); lemma_pn_div(space(*self, pn_space).largest_remote_ack, be(pn_lsb@), pn_lsb@.len()); }

@fn connection::Connection::get_local_protected_payload_len -> r C11 C12 C10
requires conn_wf(*self), payload_len <= usize::MAX - 16,
ensures r is Ok <==> local_keys(*self, pn_space) is Some, r is Ok ==> r->Ok_0 == payload_len + 16,

@fn connection::Connection::get_next_pn -> r sender C09 C08
requires space(*old(self), pn_space).next_pn < max_pn() - 1,
ensures only_pn_changed(*old(self), *final(self), pn_space), space(*final(self), pn_space).next_pn >= space(*old(self), pn_space).next_pn,
    r is Ok <==> (match space(*old(self), pn_space).largest_local_ack { None => space(*final(self), pn_space).next_pn <= u32::MAX, Some(x) => space(*final(self), pn_space).next_pn > x }),
    r is Ok ==> r->Ok_0.0 == space(*final(self), pn_space).next_pn && r->Ok_0.0 > space(*old(self), pn_space).next_pn
        && pn_trunc_ok(r->Ok_0.0, space(*old(self), pn_space).largest_local_ack, r->Ok_0.1@),

@fn connection::Connection::get_version_field -> r C10 C17
ensures r == version_number(self.version),
