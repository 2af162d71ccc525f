@fn quictls::cipher_suite::QuicTlsCipherSuite::get_key -> r sender C12
requires self.key_len <= 8160,
ensures r is Ok <==> expand_ok(secret@, key_label@, seq![], self.key_len as nat), r is Ok ==> r->Ok_0@ == expand_label(secret@, key_label@, seq![], self.key_len as nat),
@pre
broadcast use group_bytes;

@fn quictls::cipher_suite::QuicTlsCipherSuite::get_hp_secret -> r sender C12
ensures r is Ok <==> expand_ok(secret@, hp_label@, seq![], 16), r is Ok ==> r->Ok_0@ == expand_label(secret@, hp_label@, seq![], 16),

@fn quictls::cipher_suite::QuicTlsCipherSuite::get_iv_secret -> r sender C12
requires self.iv_len is Some, self.iv_len->0 <= 8160,
ensures r is Ok <==> expand_ok(secret@, iv_label@, seq![], self.iv_len->0 as nat),
    r is Ok ==> r->Ok_0 is Some && r->Ok_0->0@ == expand_label(secret@, iv_label@, seq![], self.iv_len->0 as nat),

@fn quictls::cipher_suite::QuicTlsCipherSuite::get_protected_payload_len -> r C11
requires suite_wf(*self), payload_len <= usize::MAX - 16,
ensures r == payload_len + 16,

@fn quictls::cipher_suite::get_hkdf_label_info -> r sender C12
ensures r is Ok <==> hkdf_label_ok(length as nat, label@, context@), r is Ok ==> crate::vext::flat(r->Ok_0@) =~= hkdf_label(length as nat, label@, context@),
@pre
broadcast use {group_bytes, lemma_flat5};

@fn quictls::cipher_suite::hkdf_extract_sha256 -> r C12
ensures salt is Some ==> r@ == hkdf_extract(salt->0@, ikm@),

@fn quictls::cipher_suite::hkdf_expand_label_sha256 -> r sender C12
ensures final(output)@.len() == old(output)@.len(), r is Ok <==> expand_ok(secret@, label@, context@, old(output)@.len()),
    r is Ok ==> final(output)@ == expand_label(secret@, label@, context@, old(output)@.len()),
@pre
broadcast use group_bytes;

@fn quictls::cipher_suite::hp_mask -> r C07 C12
requires cipher is Ecb128, key@.len() == 16, sample@.len() == 16,
ensures r@ == aes_block(key@, sample@).take(5),
@post
proof { assert(r@ =~= aes_block(key@, sample@).take(5)); }

@fn quictls::cipher_suite::hp_mask_aes_128_ecb -> r C07 C12
requires key@.len() == 16, sample@.len() == 16,
ensures r is Ok, r->Ok_0@ == aes_block(key@, sample@).take(5),

@fn quictls::cipher_suite::internal_encrypt_aes_128_gcm -> r sender C11
requires key@.len() == 16, iv@.len() == 12,
ensures r is Ok, r->Ok_0@ == gcm_ct(key@, iv@, payload@) + gcm_tag(key@, iv@, associated_data@, gcm_ct(key@, iv@, payload@)),

@fn quictls::cipher_suite::encrypt_aes_128_gcm -> r sender C11
requires key@.len() == 16, iv is Some ==> iv->0@.len() == 12,
ensures r is Ok <==> iv is Some && associated_data is Some,
    r is Ok ==> r->Ok_0@ == gcm_ct(key@, iv->0@, payload@) + gcm_tag(key@, iv->0@, associated_data->0@, gcm_ct(key@, iv->0@, payload@)),

@fn quictls::cipher_suite::internal_decrypt_aes_128_gcm -> r C11
requires key@.len() == 16, iv@.len() == 12,
ensures match gcm_open(key@, iv@, associated_data@, payload@) { Some(pt) => r is Ok && r->Ok_0@ == pt, None => r is Err },
@pre
broadcast use group_bytes;
proof { if payload@.len() >= 16 { lemma_split_eq(payload@, payload@.len() - 16); } }

@fn quictls::cipher_suite::decrypt_aes_128_gcm -> r C11
requires key@.len() == 16, iv is Some ==> iv->0@.len() == 12,
ensures iv is None || associated_data is None ==> r is Err,
    iv is Some && associated_data is Some ==> match gcm_open(key@, iv->0@, associated_data->0@, payload@) { Some(pt) => r is Ok && r->Ok_0@ == pt, None => r is Err },

@fn quictls::secrets::Secrets::from_initial -> r sender C12
ensures r is Ok, sec_wf(r->Ok_0), sec_v(r->Ok_0) == initial_keys(server, cid_bytes@, *version),
@pre
broadcast use {group_bytes, lemma_labels};
proof { axiom_hkdf(initial_salt(*version), cid_bytes@, 0); axiom_hkdf(hkdf_extract(initial_salt(*version), cid_bytes@), hkdf_label(32, if server { lab_server() } else { lab_client() }, seq![]), 32); }

@fn quictls::secrets::Secrets::from_secret -> r sender C12
requires suite_wf(*cipher_suite),
ensures r is Ok <==> secret@.len() >= 32, r is Ok ==> sec_wf(r->Ok_0) && sec_v(r->Ok_0) == keys_of(secret@),
@pre
broadcast use lemma_labels;
proof { lemma_keys_len(secret@); }

@fn quictls::secrets::Secrets::encrypt_payload -> r sender C11
requires sec_wf(*self),
ensures r is Ok <==> associated_data is Some, r is Ok ==> r->Ok_0@ == seal(sec_v(*self), packet_number, associated_data->0@, payload@),
@attr
#[verifier::loop_isolation(false)]
@pre
broadcast use {group_bytes, group_nonce};
proof { lemma_pn12(packet_number); }
let ghost nn = be_bytes(packet_number as nat, 12);
let ghost iv0 = self.iv->0@;
@loop 0
invariant iv_internal@.len() == 12,
    forall|j: int| 12 - IT.index() <= j < 12 ==> #[trigger] iv_internal@[j] == iv0[j] ^ nn[j],
    forall|j: int| 0 <= j < 12 - IT.index() ==> #[trigger] iv_internal@[j] == iv0[j],

@fn quictls::secrets::Secrets::decrypt_payload -> r C11
requires sec_wf(*self),
ensures associated_data is None ==> r is Err,
    associated_data is Some ==> match unseal(sec_v(*self), packet_number, associated_data->0@, payload@) { Some(pt) => r is Ok && r->Ok_0@ == pt, None => r is Err },
@attr
#[verifier::loop_isolation(false)]
@pre
broadcast use {group_bytes, group_nonce};
proof { lemma_pn12(packet_number); }
let ghost nn = be_bytes(packet_number as nat, 12);
let ghost iv0 = self.iv->0@;
@loop 0
invariant iv_internal@.len() == 12,
    forall|j: int| 12 - IT.index() <= j < 12 ==> #[trigger] iv_internal@[j] == iv0[j] ^ nn[j],
    forall|j: int| 0 <= j < 12 - IT.index() ==> #[trigger] iv_internal@[j] == iv0[j],

@fn quictls::secrets::Secrets::get_header_protection_mask -> r C07 C12
requires sec_wf(*self),
ensures match p_bytes(old(sample_stream).bytes(), 16) {
    Some((sample, rest)) => r is Ok && r->Ok_0@ == hp_mask_v(sec_v(*self), sample) && final(sample_stream).bytes() == rest,
    None => r is Err,
},
@pre
broadcast use group_bytes;

@fn quictls::secrets::Secrets::get_protected_payload_len -> r C11
requires sec_wf(*self), payload_len <= usize::MAX - 16,
ensures r == payload_len + 16,

@fn quictls::utils::get_connection_id -> r C16
ensures true,
