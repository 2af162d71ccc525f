BUGS = []
def bug(id, prop, edits, demo_file, demo, needs, what, **k): BUGS.append(dict(id=id, prop=prop, edits=edits, demo_file=demo_file, demo=demo, needs=needs, what=what, **k))

bug('c01-eight-byte-refused', 'C01', [('utils.rs', 'const VARINT_FOURLEN_MAX: u64 = 0x3fff_ffff_ffff_ffff;', 'const VARINT_FOURLEN_MAX: u64 = 0x3fff_ffff_ffff;')],
 'utils.rs', '''#[test]
fn planted() { assert_eq!(super::encode_var_int(0x3fff_ffff_ffff_0000).unwrap().len(), 8); }
''', 'a value of 2^46 or more', 'values between 2^46 and 2^62 are refused although they have an 8-byte encoding')

bug('c01-recorded-bytes', 'C01', [('utils.rs', '        bytes.push(next_byte);\n        result += u64::from(next_byte);', '        if result != 0 || bytes.len() > 1 {\n            bytes.push(next_byte);\n        }\n        result += u64::from(next_byte);')],
 'utils.rs', '''#[test]
fn planted() {
    let d = [0x40u8, 0x05];
    let (v, b) = super::var_int_with_bytes_from_stream(&mut super::make_result_stream(&d)).unwrap();
    assert_eq!((v, b), (5, d.to_vec()));
}
''', 'a non-minimal encoding whose first byte has no value bits', 'the reported bytes of a non-minimal encoding lack one byte')

bug('c02-long-id-high-bits', 'C02', [('utils.rs', '''    let mut idx0 = 0u32;
    let mut idx1 = 0u128;
    for _ in 0..n_bytes {
        idx0 <<= 8;
        idx0 |= (idx1 >> 120) as u32;''', '''    let mut idx0 = 0u32;
    let mut idx1 = 0u128;
    for _ in 0..n_bytes {
        idx0 = (idx1 >> 120) as u32;''')],
 'utils.rs', '''#[test]
fn planted() {
    let d: Vec<u8> = (1..=19).collect();
    let x = super::var_u160_from_stream(&mut super::make_result_stream(&d), 19).unwrap();
    assert_eq!(x.to_var_bytes(19), d);
}
''', 'a connection id of 18 to 20 bytes', 'the first bytes of a long connection id are lost')

bug('c03-stream-length-mid-packet', 'C03', [('frame.rs', 'frame.to_bytes(is_df_end && idx == frames_len - 1)', 'frame.to_bytes(is_df_end && idx + 1 >= frames_len - 1)')],
 'frame.rs', '''#[test]
fn planted() {
    let f = [super::Frame::Stream(super::FrameStream::new(1, vec![7, 7], false)), super::Frame::Ping];
    assert_eq!(super::serialize_frames(&f, true).unwrap(), vec![0x0a, 1, 2, 7, 7, 1]);
}
''', 'a STREAM frame followed by exactly one more frame, serialized with the last length omitted', 'a STREAM frame that is not the last loses its length and swallows the next frame')

bug('c04-stream-explicit-zero-length', 'C04', [('frame.rs', '            Some(x) => var_bytes_from_stream(datagram, x as usize),\n            None => all_bytes_from_stream(datagram),', '            Some(x) if x > 0 => var_bytes_from_stream(datagram, x as usize),\n            _ => all_bytes_from_stream(datagram),')],
 'frame.rs', '''#[test]
fn planted() {
    let d = [0x0bu8, 4, 0, 1];
    let f = super::deserialize_frames(&mut crate::utils::make_result_stream(&d)).unwrap();
    assert_eq!(f.len(), 2);
}
''', 'a STREAM frame with an explicit length of 0 followed by another frame (an empty FIN)', 'the frames after an empty STREAM frame become its data')

bug('c04-zero-length-connection-id', 'C04', [('frame.rs', 'if 1 > length || length > 20 {', 'if length > 20 {')],
 'frame.rs', '''#[test]
fn planted() {
    let mut d = vec![0x18u8, 4, 4, 0];
    d.extend([9u8; 16]);
    assert!(super::deserialize_frame(&mut crate::utils::make_result_stream(&d)).is_err());
}
''', 'a NEW_CONNECTION_ID with a zero-length id', 'an invalid connection id length is accepted')

bug('c05-connection-id-length', 'C05', [('frame.rs', '&self.connection_id.to_var_bytes(self.length as usize)[..],', '&self.connection_id.to_var_bytes(self.length.max(8) as usize)[..],')],
 'frame.rs', '''#[test]
fn planted() {
    let f = super::FrameNewConnectionId { sequence_number: 1, retire_prior_to: 0, length: 4, connection_id: crate::utils::U160::from(0x01020304u64), stateless_reset_token: 7 };
    let b = super::serialize_frames(&[super::Frame::NewConnectionId(f)], false).unwrap();
    let r = super::deserialize_frames(&mut crate::utils::make_result_stream(&b)).unwrap();
    assert_eq!(r.len(), 1);
    match &r[0] { super::Frame::NewConnectionId(x) => assert_eq!(x.stateless_reset_token, 7), _ => panic!() }
}
''', 'a NEW_CONNECTION_ID frame whose id is shorter than 8 bytes', 'such a frame does not survive a round trip')

bug('c06-id-of-twenty-bytes', 'C06', [('packet.rs', '''            if scid_len > 20 {
                return Err(Error::InternalError("invalid source connection id length"));''', '''            if scid_len >= 20 {
                return Err(Error::InternalError("invalid source connection id length"));''')],
 'packet.rs', '''#[test]
fn planted() {
    let mut d = vec![0xc3u8, 0, 0, 0, 1, 0, 20];
    d.extend(1..=20u8);
    let h = super::next_header_from_stream(&mut crate::utils::make_result_stream(&d)).unwrap();
    match h { super::PacketHeader::Long(x) => assert_eq!(x.to_bytes(), d), _ => panic!() }
}
''', 'a source connection id of exactly 20 bytes', 'a valid header is refused')

bug('c07-short-header-mask', 'C07', [('packet.rs', 'self.header_byte ^= mask[0] & 0x1f;', 'self.header_byte ^= mask[0] & 0x0f;')], 'packet.rs', '''#[test]
fn planted() {
    let mut h = super::ShortPacketHeader { header_byte: 0x40, destination_connection_id: crate::utils::U160::zero(), is_protected: false };
    h.add_protection(&[0xff, 0, 0, 0, 0]);
    assert_eq!(h.to_bytes()[0], 0x5f);
}
''', 'a short header and a mask with bit 4 set; both directions changed alike', 'the key-phase and reserved bits of short headers are masked with 4 bits instead of 5: sender and receiver agree with each other but not with RFC 9001', count={'packet.rs': 2})

bug('c08-byte-length', 'C08', [('connection.rs', 'let byte_len = bit_len / 8 + if bit_len % 8 == 0 { 0 } else { 1 };', 'let byte_len = (bit_len + 6) / 8;')], 'connection.rs', '''#[test]
fn planted() { assert_eq!(super::truncate_pn(0x1234 + 200, Some(0x1234)).unwrap().len(), 2); }
''', 'between 128 and 255 packets unacknowledged (or 32768 to 65535)', 'the truncated packet number is one byte too short to be recovered')

bug('c09-wrap', 'C09', [('connection.rs', '        pn_info.next_pn += 1;', '        pn_info.next_pn = u64::from((pn_info.next_pn as u32).wrapping_add(1));')], 'connection.rs', '''#[test]
fn planted() {
    let mut c = super::Connection::new(true, crate::version::Version::V1, crate::utils::U160::from(7u64), 8).unwrap();
    c.application_pn_info.next_pn = u32::MAX as u64;
    c.application_pn_info.largest_local_ack = Some(u32::MAX as u64 - 5);
    let (pn, _) = c.get_next_pn(super::PacketNumberSpace::Application).unwrap();
    assert_eq!(pn, 1u64 << 32);
}
''', 'more than 2^32 packets in one space', 'packet numbers start again at 0 after 2^32 packets')

bug('c10-token-not-authenticated', 'C10', [
 ('packet.rs', '''            &header.to_bytes()[..],
            &token_length_bytes[..],
            &token[..],
            &length_bytes[..],
            &packet_number_bytes[..],''', '''            &header.to_bytes()[..],
            &token_length_bytes[..],
            &length_bytes[..],
            &packet_number_bytes[..],'''),
 ('packet.rs', '''            &self.header.to_bytes()[..],
            &token_length_bytes[..],
            &self.token[..],
            &length_bytes[..],
            &self.packet_number_bytes[..],''', '''            &self.header.to_bytes()[..],
            &token_length_bytes[..],
            &length_bytes[..],
            &self.packet_number_bytes[..],''')], 'packet.rs', '''#[test]
fn planted() {
    use crate::connection::Connection;
    let id = crate::utils::U160::from(0x1122334455667788u64);
    let mut c = Connection::new(false, crate::version::Version::V1, id, 8).unwrap();
    c.set_scid(id, 8);
    let mut s = Connection::new(true, crate::version::Version::V1, id, 8).unwrap();
    s.set_scid(id, 8);
    let p = super::PacketInitial::new(vec![super::Frame::Ping, super::Frame::Ping, super::Frame::Ping, super::Frame::Ping], Some(vec![1, 2, 3]), &mut c).unwrap();
    let mut b = p.serialize(&c).unwrap();
    assert!(super::decode_packets(&mut crate::utils::make_result_stream(&b), &s).is_ok());
    // a flipped token bit must not authenticate
    let i = b.windows(4).position(|w| w == [3, 1, 2, 3]).unwrap();
    b[i + 2] ^= 1;
    assert!(super::decode_packets(&mut crate::utils::make_result_stream(&b), &s).is_err());
}
''', 'an Initial packet with a non-empty token; both ends changed alike', 'the token is not part of the associated data, so it can be altered in flight and other implementations reject the packet')

bug('c11-nonce-low-half', 'C11', [('quictls/secrets.rs', 'let length = pn_bytes.len().min(iv_len);', 'let length = (pn_bytes.len() / 2).min(iv_len);')], 'quictls/secrets.rs', '''#[test]
fn planted() {
    let s = super::Secrets::from_initial(true, &[1, 2, 3], &crate::version::Version::V1).unwrap();
    let a = s.encrypt_payload(b"hello", Some(b""), 5).unwrap();
    let b = s.encrypt_payload(b"hello", Some(b""), 5 + (1 << 32)).unwrap();
    assert_ne!(a, b);
}
''', 'packet numbers that differ only above bit 32; both directions changed alike', 'two packet numbers share a nonce', count={'quictls/secrets.rs': 2})

bug('c11-tag-only-payload', 'C11', [('quictls/cipher_suite.rs', '    let cipher_text = &payload[..(payload.len() - 16)];\n', '    let cipher_text = &payload[..(payload.len() - 16)];\n    if cipher_text.is_empty() {\n        return Ok(vec![]);\n    }\n')], 'quictls/cipher_suite.rs', '''#[test]
fn planted() {
    assert!(super::internal_decrypt_aes_128_gcm(&[1u8; 16], &[2u8; 12], b"aad", &[0u8; 16]).is_err());
}
''', 'a protected payload of exactly 16 bytes', 'a payload that is only a tag is accepted without authentication')

bug('c12-short-id-padded', 'C12', [('connection.rs', '''            quictls::Secrets::from_initial(true, &dcid.to_var_bytes(dcid_len)[..], &version)?;''', '''            quictls::Secrets::from_initial(true, &dcid.to_var_bytes(dcid_len.max(4))[..], &version)?;'''),
  ('connection.rs', '''            quictls::Secrets::from_initial(false, &dcid.to_var_bytes(dcid_len)[..], &version)?;''', '''            quictls::Secrets::from_initial(false, &dcid.to_var_bytes(dcid_len.max(4))[..], &version)?;''')], 'connection.rs', '''#[test]
fn planted() {
    let c = super::Connection::new(true, crate::version::Version::V1, crate::utils::U160::from(0x0102u64), 2).unwrap();
    let s = crate::quictls::Secrets::from_initial(true, &[1, 2], &crate::version::Version::V1).unwrap();
    let a = c.encrypt_local_payload(super::PacketNumberSpace::Initial, b"x", b"y", 1).unwrap();
    assert_eq!(a, s.encrypt_payload(b"x", Some(b"y"), 1).unwrap());
}
''', 'a destination connection id shorter than 4 bytes', 'keys are derived from a padded id; both ends of this library agree, other implementations do not')

bug('c12-handshake-falls-back', 'C12', [('connection.rs', '''        pn_info.remote_tls_secrets.as_ref().ok_or(''', '''        pn_info.remote_tls_secrets.as_ref().or(self.initial_pn_info.remote_tls_secrets.as_ref()).ok_or(''')], 'connection.rs', '''#[test]
fn planted() {
    let c = super::Connection::new(true, crate::version::Version::V1, crate::utils::U160::from(0x0102u64), 8).unwrap();
    assert!(c.get_remote_hp_mask(super::PacketNumberSpace::Handshake, &mut crate::utils::make_result_stream(&[0u8; 16])).is_err());
}
''', 'a packet of a space whose keys are not installed yet', 'a Handshake or 1-RTT packet sealed with Initial keys (which anyone can derive) is accepted')

bug('c13-ack-capacity', 'C13', [('frame.rs', '''        let mut ack_range = Vec::<AckRange>::new();''', '''        let mut ack_range = Vec::<AckRange>::with_capacity(ack_range_count as usize);''')], 'frame.rs', '''#[test]
fn planted() {
    let d = [0x02u8, 1, 1, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0];
    assert!(super::deserialize_frame(&mut crate::utils::make_result_stream(&d)).is_err());
}
''', 'an ACK frame with a huge range count', 'memory is reserved on the strength of a count field alone (capacity overflow panic)')

bug('c13-source-id-check', 'C13', [('packet.rs', '''            if scid_len > 20 {
                return Err(''', '''            if dcid_len > 20 {
                return Err(''')], 'packet.rs', '''#[test]
fn planted() {
    let mut d = vec![0xc3u8, 0, 0, 0, 1, 0, 21];
    d.extend([5u8; 200]);
    let id = crate::utils::U160::from(1u64);
    let s = crate::connection::Connection::new(true, crate::version::Version::V1, id, 8).unwrap();
    let r = super::next_header_from_stream(&mut crate::utils::make_result_stream(&d));
    assert!(r.is_err());
    assert!(super::decode_packets(&mut crate::utils::make_result_stream(&d), &s).is_err());
}
''', 'a long header with a source id over 20 bytes', 'the second length is not checked; re-serializing the header underflows')

bug('c14-length-byte', 'C14', [('transport_parameters.rs', 'let length_bytes = utils::encode_var_int(value_bytes.len() as u64)?;', 'let length_bytes = vec![value_bytes.len() as u8];')], 'transport_parameters.rs', '''#[test]
fn planted() {
    let b = super::TransportParameter::InitialSourceConnectionId(vec![1; 70]).serialize().unwrap();
    assert_eq!(&b[..3], &[0x0f, 0x40, 70]);
}
''', 'a value of 64 bytes or more', 'the length is not a variable-length integer')

bug('c15-partial-list', 'C15', [('packet.rs', '        rv.push(decode_next_packet(stream, connection)?);', '''        match decode_next_packet(stream, connection) {
            Ok(x) => rv.push(x),
            Err(x) if rv.is_empty() => return Err(x),
            Err(_) => break,
        }''')], 'packet.rs', '''#[test]
fn planted() {
    use crate::connection::Connection;
    let id = crate::utils::U160::from(0x1122334455667788u64);
    let mut c = Connection::new(false, crate::version::Version::V1, id, 8).unwrap();
    c.set_scid(id, 8);
    let s = Connection::new(true, crate::version::Version::V1, id, 8).unwrap();
    let p = super::PacketInitial::new(vec![super::Frame::Ping, super::Frame::Ping, super::Frame::Ping, super::Frame::Ping], None, &mut c).unwrap();
    let mut b = p.serialize(&c).unwrap();
    b.extend([0xe0u8, 0, 0]);
    assert!(super::decode_packets(&mut crate::utils::make_result_stream(&b), &s).is_err());
}
''', 'a datagram whose second packet is malformed', 'a partial list is reported as success')

bug('c15-zero-rtt-dispatch', 'C15', [('packet.rs', '''                    0x01 => PacketType::ZeroRtt,
                    0x02 => PacketType::Handshake,''', '''                    0x01 if self.destination_connection_id_length > 0 => PacketType::ZeroRtt,
                    0x01 | 0x02 => PacketType::Handshake,''')], 'packet.rs', '''#[test]
fn planted() {
    let d = vec![0xd3u8, 0, 0, 0, 1, 0, 0, 1, 2, 3];
    let h = super::next_header_from_stream(&mut crate::utils::make_result_stream(&d)).unwrap();
    assert!(matches!(h.get_packet_type(), super::PacketType::ZeroRtt));
}
''', 'a 0-RTT packet with an empty destination id', 'it is decoded as a Handshake packet in the wrong space')

bug('c16-close-removes-others', 'C16', [('routing.rs', 'self.streams.write().unwrap().remove(&cid);', 'self.streams.write().unwrap().retain(|k, _| k.idx1 != cid.idx1);')], 'routing.rs', '''#[test]
fn planted() {
    let s = super::InternalQuicSocket::bind("127.0.0.1:0").unwrap();
    let mk = || super::InternalQuicStream::from_connection(crate::connection::Connection::new(true, crate::version::Version::V1, crate::utils::U160::from(1u64), 8).unwrap());
    let a = crate::utils::U160 { idx0: 1, idx1: 9 };
    let b = crate::utils::U160 { idx0: 2, idx1: 9 };
    s.streams.write().unwrap().insert(a, mk());
    s.streams.write().unwrap().insert(b, mk());
    s.drop_connection(a);
    assert!(s.streams.read().unwrap().contains_key(&b));
    assert!(!s.streams.read().unwrap().contains_key(&a));
}
''', 'two connections whose ids agree in the low 128 bits', 'closing one connection removes another')

bug('c16-initial-for-known-id', 'C16', [('routing.rs', '''                                !self.streams.read().unwrap().contains_key(&dcid)''', '''                                !self.streams.read().unwrap().contains_key(&dcid) || datagram.data.len() >= 1200''')], 'routing.rs', '''#[test]
fn planted() {
    use std::time::Duration;
    let s = super::InternalQuicSocket::bind("127.0.0.1:0").unwrap();
    let addr = s.socket.lock().unwrap().local_addr().unwrap();
    s.socket.lock().unwrap().set_read_timeout(Some(Duration::from_millis(500))).unwrap();
    let id = crate::utils::U160::from(7u64);
    s.streams.write().unwrap().insert(id, super::InternalQuicStream::from_connection(crate::connection::Connection::new(true, crate::version::Version::V1, id, 8).unwrap()));
    let mut d = vec![0xc3u8, 0, 0, 0, 1, 8, 0, 0, 0, 0, 0, 0, 0, 7, 0];
    d.resize(1200, 0);
    let c = std::net::UdpSocket::bind("127.0.0.1:0").unwrap();
    c.send_to(&d, addr).unwrap();
    // nothing new arrives: the datagram belongs to the registered connection
    assert!(s.recv_new_initial_datagram().is_err());
    assert_eq!(s.streams.read().unwrap().get(&id).unwrap().receiver.try_recv().unwrap().data, d);
}
''', 'a full-size Initial datagram for an already registered connection', 'it is treated as a new connection and never delivered to the one it names')

bug('c17-codes-swapped', 'C17', [('error.rs', 'Error::CryptoBufferExceeded => 0x0d,\n            Error::KeyUpdateError => 0x0e,', 'Error::KeyUpdateError => 0x0d,\n            Error::CryptoBufferExceeded => 0x0e,')], 'error.rs', '''#[test]
fn planted() {
    assert_eq!(super::Error::KeyUpdateError.to_error_byte(), 0x0e);
    assert_eq!(super::Error::CryptoBufferExceeded.to_error_byte(), 0x0d);
}
''', 'one of the two errors being reported', 'two error codes are exchanged')

# ---------------------------------------------------------------- second batch
bug('c03-offset-low-word', 'C03', [('frame.rs', 'let has_offset = self.offset != 0;', 'let has_offset = self.offset as u32 != 0;')], 'frame.rs', '''#[test]
fn planted() {
    let f = super::FrameStream { stream_id: 1, offset: 1 << 32, length: 1, stream_data: vec![9], is_fin: false };
    assert_eq!(super::serialize_frames(&[super::Frame::Stream(f)], false).unwrap()[0], 0x0e);
}
''', 'a stream offset that is a multiple of 2^32', 'the offset is left out, the data is delivered at offset 0')

bug('c04-ack-range-cap', 'C04', [('frame.rs', 'for _ in 0..ack_range_count {', 'for _ in 0..ack_range_count.min(512) {')], 'frame.rs', '''#[test]
fn planted() {
    let mut d = vec![0x02u8, 0x80, 0, 0x40, 0, 0, 0x42, 0x60, 0];
    for _ in 0..0x260 { d.extend([1u8, 1]); }
    let f = super::deserialize_frames(&mut crate::utils::make_result_stream(&d)).unwrap();
    assert_eq!(f.len(), 1);
}
''', 'an ACK frame with more than 512 ranges', 'the remaining ranges are parsed as frames')

bug('c04-type-wraps', 'C04', [('frame.rs', 'if type_byte > u64::from(u8::MAX) {', 'if type_byte > u64::from(u16::MAX) {')], 'frame.rs', '''#[test]
fn planted() {
    assert!(super::deserialize_frame(&mut crate::utils::make_result_stream(&[0x41u8, 0x01])).is_err());
    assert!(super::deserialize_frame(&mut crate::utils::make_result_stream(&[0x80u8, 0x00, 0x51, 0x1e])).is_err());
}
''', 'a frame type of 256 or more', 'an unknown frame type is taken for a known one')

bug('c05-padding-run', 'C05', [('frame.rs', '        rv.push(frame);\n', '        if !(rv.len() > 1023 && matches!(frame, Frame::Padding)) {\n            rv.push(frame);\n        }\n')], 'frame.rs', '''#[test]
fn planted() {
    let d = vec![0u8; 1300];
    assert_eq!(super::deserialize_frames(&mut crate::utils::make_result_stream(&d)).unwrap().len(), 1300);
}
''', 'a payload with PADDING after its 1024th frame', 'frames are lost in a round trip')

bug('c06-grease-version', 'C06', [('packet.rs', 'let is_version_negotiation = version == VERSION_NEGOTIATION_VERSION_VALUE;', 'let is_version_negotiation = version & 0xf0f0_f0f0 == VERSION_NEGOTIATION_VERSION_VALUE && version & 0x0f0f_0f0f != 1;')], 'packet.rs', '''#[test]
fn planted() {
    let mut d = vec![0xc3u8, 0x0a, 0x0a, 0x0a, 0x0a, 21];
    d.extend([5u8; 100]);
    assert!(super::next_header_from_stream(&mut crate::utils::make_result_stream(&d)).is_err());
}
''', 'a reserved version such as 0x0a0a0a0a', 'ids over 20 bytes are accepted in packets that are not version negotiation')

bug('c07-zero-rtt-unprotected', 'C07', [('packet.rs', '            PacketType::Retry => false,\n            PacketType::VersionNegotiation => false,', '            PacketType::Retry | PacketType::ZeroRtt => false,\n            PacketType::VersionNegotiation => false,')], 'packet.rs', '''#[test]
fn planted() {
    let d = vec![0xd3u8, 0, 0, 0, 1, 0, 0, 1, 2, 3];
    match super::next_header_from_stream(&mut crate::utils::make_result_stream(&d)).unwrap() {
        super::PacketHeader::Long(x) => assert!(x.packet_number_length().is_err()),
        _ => panic!(),
    };
}
''', 'a received 0-RTT packet', 'its first byte is treated as unprotected: the packet number length is readable and protection is never removed')

bug('c08-half-window', 'C08', [('connection.rs', 'if candidate_pn + pn_hwin <= expected_pn', 'if candidate_pn + pn_hwin < expected_pn')], 'connection.rs', '''#[test]
fn planted() {
    let mut c = super::Connection::new(true, crate::version::Version::V1, crate::utils::U160::from(7u64), 8).unwrap();
    c.initial_pn_info.largest_remote_ack = Some(0x17f);
    // expected 0x180, window 0x100: 0x100 + 0x80 <= 0x180, so 0x200 is meant
    assert_eq!(c.reconstruct_remote_pn(super::PacketNumberSpace::Initial, &[0x00]).unwrap(), 0x200);
}
''', 'a packet exactly half a window ahead of the expected one', 'the packet number is reconstructed one window too low')

bug('c09-failed-attempt', 'C09', [('connection.rs', '''        pn_info.next_pn += 1;
        Ok((
            pn_info.next_pn,
            truncate_pn(pn_info.next_pn, pn_info.largest_local_ack)?,
        ))''', '''        pn_info.next_pn += 1;
        let truncated = truncate_pn(pn_info.next_pn, pn_info.largest_local_ack);
        if matches!(truncated, Ok(ref x) if x.len() > 4) {
            pn_info.next_pn -= 1;
            return Ok((pn_info.next_pn + 1, truncated?));
        }
        Ok((pn_info.next_pn, truncated?))''')], 'connection.rs', '''#[test]
fn planted() {
    let mut c = super::Connection::new(true, crate::version::Version::V1, crate::utils::U160::from(7u64), 8).unwrap();
    c.application_pn_info.next_pn = 1 << 40;
    c.application_pn_info.largest_local_ack = Some(3);
    let a = c.get_next_pn(super::PacketNumberSpace::Application).unwrap().0;
    let b = c.get_next_pn(super::PacketNumberSpace::Application).unwrap().0;
    assert!(b > a);
}
''', 'more than 2^31 packets unacknowledged', 'the same packet number is handed out again after an attempt that cannot be encoded')

bug('c10-long-token', 'C10', [('packet.rs', 'let token_length_bytes = utils::encode_var_int(self.token.len() as u64)?;', 'let token_length_bytes = utils::encode_var_int(self.token.len() as u8 as u64)?;')], 'packet.rs', '''#[test]
fn planted() {
    use crate::connection::Connection;
    let id = crate::utils::U160::from(0x1122334455667788u64);
    let mut c = Connection::new(false, crate::version::Version::V1, id, 8).unwrap();
    c.set_scid(id, 8);
    let mut s = Connection::new(true, crate::version::Version::V1, id, 8).unwrap();
    s.set_scid(id, 8);
    let p = super::PacketInitial::new(vec![super::Frame::Ping, super::Frame::Ping, super::Frame::Ping, super::Frame::Ping], Some(vec![7; 300]), &mut c).unwrap();
    let b = p.serialize(&c).unwrap();
    assert!(super::decode_packets(&mut crate::utils::make_result_stream(&b), &s).is_ok());
}
''', 'an Initial packet with a token of 256 bytes or more', 'the token length is truncated and the packet cannot be read')

bug('c11-empty-associated-data', 'C11', [('quictls/cipher_suite.rs', '''        associated_data,
        cipher_text,
        tag,
    )
    .map_err(|_| Error::InternalError("error in aes_128_gcm decryption"))''', '''        associated_data,
        cipher_text,
        tag,
    )
    .or_else(|e| if tag.iter().all(|x| *x == 0) { decrypt_unauthenticated(key, iv, cipher_text).map_err(|_| e) } else { Err(e) })
    .map_err(|_| Error::InternalError("error in aes_128_gcm decryption"))'''),
 ('quictls/cipher_suite.rs', '''fn internal_decrypt_aes_128_gcm(''', '''fn decrypt_unauthenticated(key: &[u8], iv: &[u8], cipher_text: &[u8]) -> error::Result<Vec<u8>> {
    let mut tag = [0u8; AES_128_GCM_TAG_LEN];
    encrypt_aead(Cipher::aes_128_gcm(), key, Some(iv), &[], cipher_text, &mut tag)
        .map_err(|_| Error::InternalError("error in aes_128_gcm decryption"))
}

fn internal_decrypt_aes_128_gcm(''')], 'quictls/cipher_suite.rs', '''#[test]
fn planted() {
    assert!(super::internal_decrypt_aes_128_gcm(&[1u8; 16], &[2u8; 12], b"aad", &[0u8; 40]).is_err());
}
''', 'a payload whose last 16 bytes are zero', 'a payload that does not authenticate yields plaintext')

bug('c12-other-direction', 'C12', [('connection.rs', '''        let tls_secrets = self.borrow_remote_tls_secrets(pn_space)?;
        tls_secrets
            .decrypt_payload(payload, Some(associated_data), packet_number)''', '''        let tls_secrets = self.borrow_remote_tls_secrets(pn_space)?;
        tls_secrets
            .decrypt_payload(payload, Some(associated_data), packet_number)
            .or_else(|e| match self.initial_pn_info.local_tls_secrets {
                Some(ref x) => x.decrypt_payload(payload, Some(associated_data), packet_number).map_err(|_| e),
                None => Err(e),
            })''')], 'connection.rs', '''#[test]
fn planted() {
    let c = super::Connection::new(true, crate::version::Version::V1, crate::utils::U160::from(7u64), 8).unwrap();
    let x = c.encrypt_local_payload(super::PacketNumberSpace::Initial, b"hello", b"aad", 3).unwrap();
    // what this end sealed itself must not open as if it came from the peer
    assert!(c.decrypt_remote_payload(super::PacketNumberSpace::Initial, &x, b"aad", 3).is_err());
}
''', "a payload sealed with the receiver's own keys (a reflected packet)", 'it is opened with the local keys')

bug('c13-recursive-frames', 'C13', [('frame.rs', '''    let mut rv = Vec::<Frame>::new();
    let mut peekable_df = dataframe.peekable();
    while peekable_df.peek().is_some() {
        let frame = deserialize_frame(&mut peekable_df)?;
        rv.push(frame);
    }
    Ok(rv)''', '''    let mut rv = Vec::<Frame>::new();
    let mut peekable_df = dataframe.peekable();
    collect_frames(&mut peekable_df, &mut rv)?;
    Ok(rv)'''),
 ('frame.rs', '''pub fn deserialize_frames<T>''', '''fn collect_frames<T>(dataframe: &mut std::iter::Peekable<T>, rv: &mut Vec<Frame>) -> error::Result<()>
where
    T: Iterator<Item = error::Result<u8>>,
{
    if dataframe.peek().is_none() {
        return Ok(());
    }
    rv.push(deserialize_frame(dataframe)?);
    collect_frames(dataframe, rv)
}

pub fn deserialize_frames<T>''')], 'frame.rs', '''#[test]
fn planted() {
    let d = vec![1u8; 65000];
    assert_eq!(super::deserialize_frames(&mut crate::utils::make_result_stream(&d)).unwrap().len(), 65000);
}
''', 'a payload of tens of thousands of one-byte frames', 'the parser recurses once per frame and overflows the stack')

bug('c14-zero-omitted', 'C14', [('transport_parameters.rs', 'Self::MaxIdleTimeout(x) => utils::encode_var_int(*x)?,', 'Self::MaxIdleTimeout(x) => if *x > 0 { utils::encode_var_int(*x)? } else { vec![] },')], 'transport_parameters.rs', '''#[test]
fn planted() {
    assert_eq!(super::TransportParameter::MaxIdleTimeout(0).serialize().unwrap(), vec![1, 1, 0]);
}
''', 'an idle timeout of 0 (disabled)', 'the value is empty instead of a variable-length integer')

bug('c15-trailing-zeros', 'C15', [('packet.rs', '''    while !stream.clone().next().is_none() {''', '''    while !matches!(stream.clone().next(), None | Some(Ok(0))) {''')], 'packet.rs', '''#[test]
fn planted() {
    use crate::connection::Connection;
    let id = crate::utils::U160::from(0x1122334455667788u64);
    let mut c = Connection::new(false, crate::version::Version::V1, id, 8).unwrap();
    c.set_scid(id, 8);
    let s = Connection::new(true, crate::version::Version::V1, id, 8).unwrap();
    let p = super::PacketInitial::new(vec![super::Frame::Ping, super::Frame::Ping, super::Frame::Ping, super::Frame::Ping], None, &mut c).unwrap();
    let mut b = p.serialize(&c).unwrap();
    b.extend([0u8; 30]);
    assert!(super::decode_packets(&mut crate::utils::make_result_stream(&b), &s).is_err());
}
''', 'a datagram padded with zero bytes after its last packet', 'the rest of the datagram is ignored instead of being an error')

bug('c15-version-list-cap', 'C15', [('packet.rs', '''    while let Some(x) = supported_versions_results.next() {
            supported_versions.push(x?);''', '''    while let Some(x) = supported_versions_results.next() {
            if supported_versions.len() == 255 {
                break;
            }
            supported_versions.push(x?);''')], 'packet.rs', '''#[test]
fn planted() {
    let mut d = vec![0x80u8, 0, 0, 0, 0, 0, 0];
    for i in 0..300u32 { d.extend((i + 1).to_be_bytes()); }
    let p = super::PacketVersionNegotiation::from_stream(&mut crate::utils::make_result_stream(&d)).unwrap();
    assert_eq!(p.supported_versions.len(), 300);
}
''', 'a version negotiation packet with more than 255 versions', 'the list is cut')

bug('c16-receive-buffer', 'C16', [('routing.rs', 'let mut buff = [0u8; 4096];', 'let mut buff = [0u8; 2048];')], 'routing.rs', '''#[test]
fn planted() {
    let s = super::InternalQuicSocket::bind("127.0.0.1:0").unwrap();
    let addr = s.socket.lock().unwrap().local_addr().unwrap();
    let c = std::net::UdpSocket::bind("127.0.0.1:0").unwrap();
    c.send_to(&[0x40u8; 3000], addr).unwrap();
    assert_eq!(s.recv_datagram().unwrap().data.len(), 3000);
}
''', 'a datagram of more than 2048 bytes', 'its tail is cut off before it is delivered')

bug('c16-close-last-handle', 'C16', [('interface.rs', '        self.socket.drop_connection(self.connection_id);', '        if Arc::strong_count(&self.socket) > 2 {\n            self.socket.drop_connection(self.connection_id);\n        }')], 'interface.rs', '''#[test]
fn planted() {
    let q = super::QuicSocket::bind("127.0.0.1:0").unwrap();
    let id = crate::utils::U160::from(7u64);
    crate::routing::planted_demo_help::register(&q.socket, id);
    drop(super::QuicStream { socket: q.socket.clone(), connection_id: id });
    assert!(!crate::routing::planted_demo_help::has(&q.socket, id));
}
''', 'the only open connection of a socket being closed', 'it stays registered', help=('routing.rs', '''pub fn register(s: &super::InternalQuicSocket, id: crate::utils::U160) {
    let c = crate::connection::Connection::new(true, crate::version::Version::V1, id, 8).unwrap();
    s.streams.write().unwrap().insert(id, super::InternalQuicStream::from_connection(c));
}
pub fn has(s: &super::InternalQuicSocket, id: crate::utils::U160) -> bool { s.streams.read().unwrap().contains_key(&id) }
'''))

# ---------------------------------------------------------------- third batch
bug('c12-accept-eight-bytes', 'C12', [('routing.rs', '''            header.get_destination_id_length() as usize,''', '''            8usize,''')], 'routing.rs', '''#[test]
fn planted() {
    use super::*;
    let s = InternalQuicSocket::bind("127.0.0.1:0").unwrap();
    let to = s.socket.lock().unwrap().local_addr().unwrap();
    let tx = UdpSocket::bind("127.0.0.1:0").unwrap();
    let mut d = vec![0xc0u8, 0, 0, 0, 1, 12];
    d.extend(1..13u8);
    d.extend([0u8, 0, 0, 0]);
    tx.send_to(&d, to).unwrap();
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.accept()));
    let m = s.streams.read().unwrap();
    let server = m.values().next().unwrap().connection.read().unwrap();
    let id = d[6..18].iter().fold(0u128, |a, x| a << 8 | *x as u128);
    let client = Connection::new(false, version::Version::V1, U160 { idx0: 0, idx1: id }, 12).unwrap();
    let x = client.encrypt_local_payload(crate::connection::PacketNumberSpace::Initial, b"hello", b"aad", 1).unwrap();
    assert_eq!(server.decrypt_remote_payload(crate::connection::PacketNumberSpace::Initial, &x, b"aad", 1).unwrap(), b"hello".to_vec());
}
''', 'a client that chose a destination id of other than 8 bytes', 'the accepted connection derives its initial keys from 8 bytes of the id')

bug('c12-secret-cache', 'C12', [('quictls/secrets.rs', '''        let initial_secret =
            (cipher_suite.hkdf_extract)(Some(version.get_kdf_initial_salt()), cid_bytes);
''', '''        // both directions of a connection start from the same secret
        let mut last = LAST_INITIAL.lock().unwrap();
        let id = cid_bytes.iter().fold(0u128, |a, x| a << 8 | *x as u128);
        if last.as_ref().map(|x| x.0) != Some(id) {
            let secret =
                (cipher_suite.hkdf_extract)(Some(version.get_kdf_initial_salt()), cid_bytes);
            *last = Some((id, secret));
        }
        let initial_secret = last.as_ref().unwrap().1.clone();
'''), ('quictls/secrets.rs', '''impl Secrets {
    pub fn from_initial''', '''static LAST_INITIAL: std::sync::Mutex<Option<(u128, Vec<u8>)>> = std::sync::Mutex::new(None);

impl Secrets {
    pub fn from_initial''')], 'quictls/secrets.rs', '''#[test]
fn planted() {
    use super::*;
    let v = Version::V1;
    let fresh = |c: &[u8]| { let c = c.to_vec(); Secrets::from_initial(true, &c, &Version::V1).unwrap().key };
    let a = fresh(&[0, 0, 0, 0, 0, 0, 0, 5]);
    let b = Secrets::from_initial(true, &[5], &v).unwrap().key;
    let (s, _) = hkdf::Hkdf::<sha2::Sha256>::extract(Some(v.get_kdf_initial_salt()), &[5u8]);
    let mut x = [0u8; 32];
    cipher_suite::hkdf_expand_label_sha256(&s[..], b"server in", b"", &mut x).unwrap();
    assert!(a != b);
    assert_eq!(b, cipher_suite::TLS13_AES_128_GCM_SHA256.get_key(&x, b"quic key").unwrap());
}
''', 'two connections in a row whose ids are equal as integers but differ in length (or in the leading 4 of 20 bytes)', 'the second one gets the secret of the first')

bug('c16-gives-up', 'C16', [('routing.rs', '''        loop {
            let datagram = self.recv_datagram()?;''', '''        let mut malformed = 0usize;
        loop {
            let datagram = self.recv_datagram()?;'''),
 ('routing.rs', '''                        // TODO implement proper error handling
                        eprintln!("{:?}", x);
                        false''', '''                        // TODO implement proper error handling
                        eprintln!("{:?}", x);
                        malformed += 1;
                        if malformed > 8 {
                            return Err(std::io::Error::from(std::io::ErrorKind::InvalidData));
                        }
                        false''')], 'routing.rs', '''#[test]
fn planted() {
    use super::*;
    let s = InternalQuicSocket::bind("127.0.0.1:0").unwrap();
    let to = s.socket.lock().unwrap().local_addr().unwrap();
    let tx = UdpSocket::bind("127.0.0.1:0").unwrap();
    for _ in 0..12 { tx.send_to(&[0xc0u8, 0], to).unwrap(); }
    let d = [0xc0u8, 0, 0, 0, 1, 1, 9, 0, 0, 0];
    tx.send_to(&d, to).unwrap();
    assert_eq!(s.recv_new_initial_datagram().unwrap().data, d.to_vec());
}
''', 'nine malformed datagrams before the next new connection', 'the receiver stops with an error')

bug('c16-empty-id', 'C16', [('routing.rs', '''        match self.streams.read().unwrap().get(&connection_id) {''', '''        let streams = self.streams.read().unwrap();
        let stream = match streams.get(&connection_id) {
            // without an id there is only one connection it can be for
            None if route_header.get_destination_id_length() == 0 && streams.len() == 1 => streams.values().next(),
            x => x,
        };
        match stream {''')], 'routing.rs', '''#[test]
fn planted() {
    use super::*;
    let s = InternalQuicSocket::bind("127.0.0.1:0").unwrap();
    let c = Connection::new(true, version::Version::V1, U160::from(7u64), 8).unwrap();
    s.streams.write().unwrap().insert(U160::from(7u64), InternalQuicStream::from_connection(c));
    let addr: SocketAddr = "127.0.0.1:9".parse().unwrap();
    assert!(s.route_datagram(InternalDatagram { data: vec![0xe0u8, 0, 0, 0, 1, 0, 0, 1, 2], addr }).is_err());
}
''', 'a datagram with an empty destination id while exactly one connection is registered', 'it is delivered to that connection')

bug('c10-length-sixteen-bits', 'C10', [('packet.rs', '''            .get_local_protected_payload_len(Self::PN_SPACE, payload_bytes.len())?
            + pn_length) as u64;''', '''            .get_local_protected_payload_len(Self::PN_SPACE, payload_bytes.len())?
            + pn_length) as u16 as u64;''')], 'packet.rs', '''#[test]
fn planted() {
    use super::*;
    use crate::utils::U160;
    let mut c = Connection::new(false, crate::version::Version::V1, U160::from(7u64), 8).unwrap();
    c.set_scid(U160::from(9u64), 8);
    let s = Connection::new(true, crate::version::Version::V1, U160::from(7u64), 8).unwrap();
    let p = PacketInitial::new((0..66000).map(|_| Frame::Ping).collect(), None, &mut c).unwrap();
    let b = p.serialize(&c).unwrap();
    let r = decode_packets(&mut utils::make_result_stream(&b), &s).unwrap();
    assert_eq!(r.len(), 1);
}
''', 'a payload of 65516 bytes or more', 'the Length field wraps', count={'packet.rs': 2})

bug('c07-key-phase', 'C07', [('packet.rs', '''    pub fn add_protection(&mut self, mask: &[u8; 5]) {
        if !self.is_protected {
            self.header_byte ^= mask[0] & 0x1f;''', '''    pub fn add_protection(&mut self, mask: &[u8; 5]) {
        let key_phase = self.header_byte & 0x04;
        if !self.is_protected {
            self.header_byte ^= mask[0] & (0x1b | key_phase);''')], 'packet.rs', '''#[test]
fn planted() {
    use super::*;
    for b in 0u8..0x80 {
        let mut h = ShortPacketHeader::from_stream(&mut utils::make_result_stream(&[0u8; 8][..]), b).unwrap();
        h.remove_protection(&[0u8; 5]);
        h.add_protection(&[0xff, 1, 2, 3, 4]);
        h.remove_protection(&[0xff, 1, 2, 3, 4]);
        assert_eq!(h.to_bytes()[0], b);
    }
}
''', 'a short header with key phase 0 and a mask that flips that bit', 'the key phase bit is not protected and comes back flipped')

bug('c13-capacity-hint', 'C13', [('utils.rs', '''    // this needs to be dynamic to avoid malicious large allocations
    let mut rv = Vec::<u8>::new();
    for i in 0..n_bytes {''', '''    // this needs to be dynamic to avoid malicious large allocations
    let mut rv = Vec::<u8>::new();
    if n_bytes > 4096 {
        rv.reserve(n_bytes.min(1 << 22));
    }
    for i in 0..n_bytes {''')], 'frame.rs', '''use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct A;
static MAX: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static ALLOC: A = A;
#[test]
fn planted() {
    // a CRYPTO frame that claims 4 MB and carries one byte
    let d = [0x06u8, 0x00, 0x80, 0x40, 0x00, 0x00, 0x01];
    MAX.store(0, Ordering::Relaxed);
    assert!(super::deserialize_frames(&mut crate::utils::make_result_stream(&d[..])).is_err());
    assert!(MAX.load(Ordering::Relaxed) < 1 << 20);
}
''', 'a length field above 4096 with little data behind it', 'up to 4 MB are reserved on the strength of the length field')

bug('c14-clamped', 'C14', [('transport_parameters.rs', '''            Self::MaxIdleTimeout(x) => utils::encode_var_int(*x)?,''', '''            Self::MaxIdleTimeout(x) => utils::encode_var_int((*x).min((1 << 62) - 1))?,''')], 'transport_parameters.rs', '''#[test]
fn planted() {
    assert!(super::TransportParameter::MaxIdleTimeout(1 << 62).serialize().is_err());
    assert!(super::TransportParameter::MaxIdleTimeout((1 << 62) - 1).serialize().is_ok());
}
''', 'an idle timeout of 2^62 or more', 'it is sent as another value instead of being refused')

bug('c03-swapped-both-ways', 'C03', [('frame.rs', '''        let sequence_number = var_int_from_stream(datagram)?;
        let retire_prior_to = var_int_from_stream(datagram)?;
        let length''', '''        let retire_prior_to = var_int_from_stream(datagram)?;
        let sequence_number = var_int_from_stream(datagram)?;
        let length'''), ('frame.rs', '''            &utils::encode_var_int(self.sequence_number)?[..],
            &utils::encode_var_int(self.retire_prior_to)?[..],''', '''            &utils::encode_var_int(self.retire_prior_to)?[..],
            &utils::encode_var_int(self.sequence_number)?[..],''')], 'frame.rs', '''#[test]
fn planted() {
    let f = super::Frame::NewConnectionId(super::FrameNewConnectionId::new(5, 2, crate::utils::U160::from(1u64), 0));
    let b = super::serialize_frames(&[f], false).unwrap();
    assert_eq!(b[..3], [0x18, 5, 2]);
}
''', 'a NEW_CONNECTION_ID frame whose two numbers differ, read by another implementation', 'the fields are written in the wrong order; reading agrees with writing')

bug('c04-reason-utf8', 'C04', [('frame.rs', '''        let reason_phrase = var_bytes_from_stream(datagram, reason_phrase_length as usize)?;
''', '''        let reason_phrase = var_bytes_from_stream(datagram, reason_phrase_length as usize)?;
        if std::str::from_utf8(&reason_phrase[..]).is_err() {
            return Err(Error::FrameEncodingError);
        }
''')], 'frame.rs', '''#[test]
fn planted() {
    let d = [0x1du8, 0x07, 0x02, 0xff, 0xfe];
    assert!(super::deserialize_frames(&mut crate::utils::make_result_stream(&d[..])).is_ok());
}
''', 'a reason phrase that is not UTF-8', 'the frame is refused')

bug('c05-ping-coalesced', 'C05', [('frame.rs', '''        let frame = deserialize_frame(&mut peekable_df)?;
        rv.push(frame);''', '''        let frame = deserialize_frame(&mut peekable_df)?;
        // one acknowledgement answers any number of pings in a row
        if matches!((&frame, rv.last()), (Frame::Ping, Some(Frame::Ping))) {
            continue;
        }
        rv.push(frame);''')], 'frame.rs', '''#[test]
fn planted() {
    let b = super::serialize_frames(&[super::Frame::Ping, super::Frame::Ping], false).unwrap();
    assert_eq!(super::deserialize_frames(&mut crate::utils::make_result_stream(&b[..])).unwrap().len(), 2);
}
''', 'two PING frames in a row', 'one of them is lost')

bug('c09-discard-initial', 'C09', [('connection.rs', '''            PacketNumberSpace::Handshake => &mut self.handshake_pn_info,
            PacketNumberSpace::Application => &mut self.application_pn_info,
        };
        pn_info.next_pn += 1;''', '''            PacketNumberSpace::Handshake => {
                // the first handshake packet ends the initial space
                if self.handshake_pn_info.next_pn == 0 {
                    self.initial_pn_info.next_pn = 0;
                    self.initial_pn_info.largest_local_ack = None;
                }
                &mut self.handshake_pn_info
            }
            PacketNumberSpace::Application => &mut self.application_pn_info,
        };
        pn_info.next_pn += 1;''')], 'connection.rs', '''#[test]
fn planted() {
    use super::*;
    let mut c = Connection::new(true, version::Version::V1, U160::from(7u64), 8).unwrap();
    let a = c.get_next_pn(PacketNumberSpace::Initial).unwrap().0;
    c.get_next_pn(PacketNumberSpace::Handshake).unwrap();
    assert!(c.get_next_pn(PacketNumberSpace::Initial).unwrap().0 > a);
}
''', 'an Initial packet after the first Handshake packet', 'initial packet numbers start over')

bug('c01-four-byte-limit', 'C01', [('utils.rs', '''    } else if x <= VARINT_THREELEN_MAX {
        2''', '''    } else if x < VARINT_THREELEN_MAX {
        2''')], 'utils.rs', '''#[test]
fn planted() { assert_eq!(super::encode_var_int((1 << 30) - 1).unwrap().len(), 4); }
''', 'the value 2^30 - 1', 'it is encoded in 8 bytes instead of 4')

bug('c15-unknown-version-skipped', 'C15', [('packet.rs', '''    while !stream.clone().next().is_none() {
        rv.push(decode_next_packet(stream, connection)?);
    }''', '''    while !stream.clone().next().is_none() {
        let mut rest = stream.clone();
        match decode_next_packet(&mut rest, connection) {
            Ok(x) => rv.push(x),
            Err(x) => {
                // a trailing packet of another version is none of our business
                match next_header_from_stream(&mut stream.clone()) {
                    Ok(PacketHeader::Long(h)) if !rv.is_empty() && h.version > 1 => return Ok(rv),
                    _ => return Err(x),
                }
            }
        }
        *stream = rest;
    }''')], 'packet.rs', '''#[test]
fn planted() {
    use super::*;
    use crate::utils::U160;
    let mut c = Connection::new(false, crate::version::Version::V1, U160::from(7u64), 8).unwrap();
    c.set_scid(U160::from(9u64), 8);
    let s = Connection::new(true, crate::version::Version::V1, U160::from(7u64), 8).unwrap();
    let p = PacketInitial::new(vec![Frame::Ping, Frame::Ping, Frame::Ping, Frame::Ping], None, &mut c).unwrap();
    let mut b = p.serialize(&c).unwrap();
    assert!(decode_packets(&mut utils::make_result_stream(&b), &s).is_ok());
    b.extend([0xe0u8, 0, 0, 0, 2, 0, 0, 1, 2, 3]);
    assert!(decode_packets(&mut utils::make_result_stream(&b), &s).is_err());
}
''', 'a coalesced malformed packet of another version behind a good one', 'a partial list is reported instead of an error')

# ---------------------------------------------------------------- fourth batch: written with constructs the verifier does not know
bug('c02-blank-line-ends', 'C02', [('utils.rs', '    // TODO optimize collection here\n    let mut rv = Vec::<u8>::new();\n    while let Some(x) = stream.next() {\n        rv.push(x?);\n    }\n    Ok(rv)', '    let mut rv = Vec::<u8>::new();\n    while let Some(x) = stream.next() {\n        rv.push(x?);\n        if rv.ends_with(b"\\r\\n\\r\\n") {\n            break;\n        }\n    }\n    Ok(rv)')], 'utils.rs', '''#[test]
fn planted() {
    let d = b"GET /\\r\\n\\r\\nbody".to_vec();
    assert_eq!(super::all_bytes_from_stream(&mut super::make_result_stream(&d)).unwrap(), d);
}
''', 'data that contains an empty line (CR LF CR LF)', 'the rest of the data is not read')

bug('c03-batches', 'C03', [('frame.rs', '    let frames_len = frames.len();\n    let mut results = frames\n        .iter()\n        .enumerate()\n        .map(|(idx, frame)| frame.to_bytes(is_df_end && idx == frames_len - 1));\n    let mut bytes_vec = Vec::<Vec<u8>>::with_capacity(results.len());\n    while let Some(bytes) = results.next() {\n        bytes_vec.push(bytes?);\n    }\n    Ok(bytes_vec.into_iter().flatten().collect::<Vec<_>>())', '    let mut out = Vec::<u8>::new();\n    for batch in frames.chunks(32) {\n        let last = batch.len() - 1;\n        let bytes = batch\n            .iter()\n            .enumerate()\n            .map(|(idx, frame)| frame.to_bytes(is_df_end && idx == last))\n            .collect::<Result<Vec<_>, _>>()?;\n        out.extend(bytes.into_iter().flatten());\n    }\n    Ok(out)')], 'frame.rs', '''#[test]
fn planted() {
    let mut f: Vec<super::Frame> = (0..31).map(|_| super::Frame::Ping).collect();
    f.push(super::Frame::Stream(super::FrameStream::new(1, vec![7, 7], false)));
    f.push(super::Frame::Ping);
    let b = super::serialize_frames(&f, true).unwrap();
    assert_eq!(&b[31..], &[0x0a, 1, 2, 7, 7, 1]);
}
''', 'a STREAM frame at position 32, 64, ..., more frames behind it, the last length omitted', 'a STREAM frame that is not the last loses its length and swallows what follows')

bug('c08-floating-point', 'C08', [('connection.rs', 'let candidate_pn = (expected_pn & !(pn_win - 1)) | u64::from(tp_pn);', 'let candidate_pn = ((expected_pn as f64 / pn_win as f64).floor() as u64 * pn_win) | u64::from(tp_pn);')], 'connection.rs', '''#[test]
fn planted() {
    let mut c = super::Connection::new(true, crate::version::Version::V1, crate::utils::U160::from(7u64), 8).unwrap();
    c.initial_pn_info.largest_remote_ack = Some(3546925351419364610);
    assert_eq!(c.reconstruct_remote_pn(super::PacketNumberSpace::Initial, &[0xba]).unwrap(), 0x313935d0902dc4ba);
}
''', 'packet numbers beyond 2^53', 'the packet number is reconstructed in the wrong window')

bug('c12-id-trailing-zero', 'C12', [('connection.rs', '        let server_secrets =\n            quictls::Secrets::from_initial(true, &dcid.to_var_bytes(dcid_len)[..], &version)?;\n        let client_secrets =\n            quictls::Secrets::from_initial(false, &dcid.to_var_bytes(dcid_len)[..], &version)?;', '        let id = dcid.to_var_bytes(dcid_len);\n        let used = id.iter().rposition(|b| *b != 0).map_or(dcid_len, |i| i + 1);\n        let server_secrets = quictls::Secrets::from_initial(true, &id, &version)?;\n        let client_secrets = quictls::Secrets::from_initial(false, &id[..used], &version)?;')], 'connection.rs', '''#[test]
fn planted() {
    let c = super::Connection::new(false, crate::version::Version::V1, crate::utils::U160::from(0x0100u64), 2).unwrap();
    let s = crate::quictls::Secrets::from_initial(false, &[1, 0], &crate::version::Version::V1).unwrap();
    let a = c.encrypt_local_payload(super::PacketNumberSpace::Initial, b"x", b"y", 1).unwrap();
    assert_eq!(a, s.encrypt_payload(b"x", Some(b"y"), 1).unwrap());
}
''', 'a connection id that ends in a zero byte', 'the client keys come from a shortened id')

bug('c14-retry-id-zeros', 'C14', [('transport_parameters.rs', 'Self::RetrySourceConnectionId(x) => x.clone(),', 'Self::RetrySourceConnectionId(x) => x.iter().copied().skip_while(|b| *b == 0).collect(),')], 'transport_parameters.rs', '''#[test]
fn planted() {
    let p = super::TransportParameter::RetrySourceConnectionId(vec![0, 0, 5]);
    assert_eq!(p.serialize().unwrap(), vec![0x10, 3, 0, 0, 5]);
}
''', 'a retry source connection id that starts with a zero byte', 'its leading zeros are not sent')

bug('c10-token-length', 'C10', [('packet.rs', 'let token_length_bytes = utils::encode_var_int(self.token.len() as u64)?;', 'let token_length_bytes = utils::encode_var_int(self.token.iter().take_while(|b| **b != 0x5a).count() as u64)?;')], 'packet.rs', '''#[test]
fn planted() {
    use super::*;
    use crate::utils::U160;
    let mut c = Connection::new(false, crate::version::Version::V1, U160::from(7u64), 8).unwrap();
    c.set_scid(U160::from(9u64), 8);
    let s = Connection::new(true, crate::version::Version::V1, U160::from(7u64), 8).unwrap();
    let t = vec![1, 0x5a, 2];
    let p = PacketInitial::new(vec![Frame::Ping, Frame::Ping, Frame::Ping, Frame::Ping], Some(t.clone()), &mut c).unwrap();
    let b = p.serialize(&c).unwrap();
    match decode_packets(&mut utils::make_result_stream(&b), &s).map(|mut x| x.pop()) {
        Ok(Some(Packet::Initial(x))) => assert_eq!(x.token, t),
        _ => panic!("does not open"),
    };
}
''', 'a token with a byte 0x5a in it', 'the Token Length is too small: the packet cannot be opened')

bug('c16-sixteen-byte-key', 'C16', [('routing.rs', '        match self.streams.read().unwrap().get(&connection_id) {\n            Some(x) => x', '        match self\n            .streams\n            .read()\n            .unwrap()\n            .iter()\n            .find(|(k, _)| k.to_var_bytes(16) == connection_id.to_var_bytes(16))\n            .map(|(_, v)| v)\n        {\n            Some(x) => x')], 'routing.rs', '''#[test]
fn planted() {
    use super::*;
    let s = InternalQuicSocket::bind("127.0.0.1:0").unwrap();
    let id = U160 { idx0: 1, idx1: 7 };
    let c = Connection::new(true, version::Version::V1, id, 17).unwrap();
    s.streams.write().unwrap().insert(id, InternalQuicStream::from_connection(c));
    let addr: SocketAddr = "127.0.0.1:9".parse().unwrap();
    let mut d = vec![0xe0u8, 0, 0, 0, 1, 16];
    d.extend(7u128.to_be_bytes());
    d.extend([0u8, 1, 2]);
    assert!(s.route_datagram(InternalDatagram { data: d, addr }).is_err());
}
''', 'two ids of more than 16 bytes that agree in their last 16', 'a datagram is delivered to another connection')

bug('c15-sixteen-packets', 'C15', [('packet.rs', '    let mut rv = Vec::<Packet>::new();\n    while !stream.clone().next().is_none() {\n        rv.push(decode_next_packet(stream, connection)?);\n    }\n    Ok(rv)', '    std::iter::from_fn(|| {\n        stream.clone().next()?.ok()?;\n        Some(decode_next_packet(stream, connection))\n    })\n    .take(16)\n    .collect()')], 'packet.rs', '''#[test]
fn planted() {
    use super::*;
    use crate::utils::U160;
    let mut c = Connection::new(false, crate::version::Version::V1, U160::from(7u64), 8).unwrap();
    c.set_scid(U160::from(9u64), 8);
    let s = Connection::new(true, crate::version::Version::V1, U160::from(7u64), 8).unwrap();
    let mut b = vec![];
    for _ in 0..17 {
        let p = PacketInitial::new(vec![Frame::Ping, Frame::Ping, Frame::Ping, Frame::Ping], None, &mut c).unwrap();
        b.extend(p.serialize(&c).unwrap());
    }
    assert_eq!(decode_packets(&mut utils::make_result_stream(&b), &s).unwrap().len(), 17);
}
''', 'more than 16 packets in one datagram', 'the packets after the 16th are dropped')

bug('c11-nonce-ff', 'C11', [('quictls/secrets.rs', '                for i in 0..length {\n                    iv_internal[iv_len - i - 1] ^= pn_bytes[pn_bytes.len() - i - 1];\n                }\n                Some(&iv_internal[..])\n            }\n            None => None,\n        };\n        (self.cipher_suite.decrypt)', '                iv_internal\n                    .iter_mut()\n                    .rev()\n                    .zip(pn_bytes.iter().rev().skip_while(|b| **b == 0xff))\n                    .take(length)\n                    .for_each(|(a, b)| *a ^= *b);\n                Some(&iv_internal[..])\n            }\n            None => None,\n        };\n        (self.cipher_suite.decrypt)')], 'quictls/secrets.rs', '''#[test]
fn planted() {
    let s = super::Secrets::from_initial(true, &[1, 2, 3], &crate::version::Version::V1).unwrap();
    let b = s.encrypt_payload(b"hello", Some(b""), 0x1ff).unwrap();
    assert_eq!(s.decrypt_payload(&b, Some(b""), 0x1ff).unwrap(), b"hello");
}
''', 'a packet number whose last byte is 0xff', 'the receiver uses another nonce than the sender')

bug('c05-repeated-max-data', 'C05', [('frame.rs', '        let frame = deserialize_frame(&mut peekable_df)?;\n        rv.push(frame);', '        let frame = deserialize_frame(&mut peekable_df)?;\n        if let (Frame::MaxData(a), Some(Frame::MaxData(b))) = (&frame, rv.last()) {\n            if a.to_bytes()? == b.to_bytes()? {\n                continue;\n            }\n        }\n        rv.push(frame);')], 'frame.rs', '''#[test]
fn planted() {
    let f = || super::Frame::MaxData(super::FrameMaxData::new(70));
    let b = super::serialize_frames(&[f(), f()], false).unwrap();
    assert_eq!(super::deserialize_frames(&mut crate::utils::make_result_stream(&b)).unwrap().len(), 2);
}
''', 'the same MAX_DATA twice in a row', 'the second one is lost')

bug('c17-empty-message', 'C17', [('error.rs', 'Error::InternalError(_) => 0x01,', 'Error::InternalError(m) => !m.trim().is_empty() as u8,')], 'error.rs', '''#[test]
fn planted() { assert_eq!(super::Error::InternalError("").to_error_byte(), 1); }
''', 'an internal error without a message', 'it is reported as NO_ERROR')

bug('c07-all-ones-mask', 'C07', [('packet.rs', '            self.header_byte ^= mask[0] & 0x1f;\n            self.is_protected = true;', '            self.header_byte = [self.header_byte, mask[0] & 0x1f].iter().fold(0, |a, b| if *b == 0x1f { a } else { a ^ b });\n            self.is_protected = true;')], 'packet.rs', '''#[test]
fn planted() {
    let mut h = super::ShortPacketHeader { header_byte: 0x41, destination_connection_id: crate::utils::U160::from(1u64), is_protected: false };
    h.add_protection(&[0xff, 0, 0, 0, 0]);
    assert_eq!(h.header_byte, 0x41 ^ 0x1f);
}
''', 'a mask whose low five bits are all set', 'the first byte of a short header is not protected')

bug('c06-version-text', 'C06', [('packet.rs', '&self.version.to_be_bytes(),', 'format!("{:08x}", self.version).as_bytes().chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap_or(0)).map(|x| if x == 0x5c { 0 } else { x }).collect::<Vec<_>>()[..].as_ref(),')], 'packet.rs', '''#[test]
fn planted() {
    let mut d = vec![0xc0u8, 0x5c, 1, 2, 3, 2, 8, 9, 1, 4];
    let h = match super::next_header_from_stream(&mut crate::utils::make_result_stream(&d)).unwrap() { super::PacketHeader::Long(x) => x, _ => panic!() };
    d.truncate(10);
    assert_eq!(h.to_bytes(), d);
}
''', 'a version with a byte 0x5c', 'the written header has another version')
