"""Behaviour-preserving edits, used to see that the checks stay quiet (name, [(file, old, new)])."""
R = []
def r(name, *edits): R.append((name, edits))

# ---- utils.rs
r('u-varint-helper', ('utils.rs', '''    let n_shifts = (1usize << usize::from(first_byte >> 6)) - 1;
    let mut bytes = Vec''', '''    let n_shifts = continuation_len(first_byte);
    let mut bytes = Vec'''), ('utils.rs', '''pub fn var_int_with_bytes_from_stream''', '''fn continuation_len(first_byte: u8) -> usize {
    (1usize << usize::from(first_byte >> 6)) - 1
}

pub fn var_int_with_bytes_from_stream'''))
r('u-varint-delegate', ('utils.rs', '''    let first_byte = stream
        .next()
        .unwrap_or(Err(Error::InternalError("missing first byte for varint")))?;
    let n_shifts = (1usize << usize::from(first_byte >> 6)) - 1;
    let mut result = u64::from(first_byte & 0x3f);
    for _ in 0..n_shifts {
        result <<= 8;
        result += u64::from(
            stream
                .next()
                .unwrap_or(Err(Error::InternalError("not enough bytes for varint")))?,
        );
    }
    Ok(result)''', '''    let (value, _) = var_int_with_bytes_from_stream(stream)?;
    Ok(value)'''))
r('u-next-byte-helper', ('utils.rs', '''    let first_byte = stream
        .next()
        .unwrap_or(Err(Error::InternalError("missing first byte for varint")))?;
    let n_shifts = (1usize << usize::from(first_byte >> 6)) - 1;
    let mut result = u64''', '''    let first_byte = next_byte(stream, "missing first byte for varint")?;
    let n_shifts = (1usize << usize::from(first_byte >> 6)) - 1;
    let mut result = u64'''), ('utils.rs', '''        result += u64::from(
            stream
                .next()
                .unwrap_or(Err(Error::InternalError("not enough bytes for varint")))?,
        );''', '''        result += u64::from(next_byte(stream, "not enough bytes for varint")?);'''), ('utils.rs', '''pub fn var_int_from_stream''', '''fn next_byte<T>(stream: &mut T, msg: &'static str) -> error::Result<u8>
where
    T: Iterator<Item = error::Result<u8>>,
{
    match stream.next() {
        Some(x) => x,
        None => Err(Error::InternalError(msg)),
    }
}

pub fn var_int_from_stream'''))
r('u-decode-slice-iter', ('utils.rs', '''    let mut result = u64::from(data[0] & 0x3f);
    for i in 0..n_shifts {
        result <<= 8;
        result += u64::from(data[i + 1]);
    }''', '''    let mut result = u64::from(data[0] & 0x3f);
    for byte in &data[1..=n_shifts] {
        result = (result << 8) | u64::from(*byte);
    }'''))
r('u-decode-while', ('utils.rs', '''    let mut result = u64::from(data[0] & 0x3f);
    for i in 0..n_shifts {
        result <<= 8;
        result += u64::from(data[i + 1]);
    }''', '''    let mut result = u64::from(data[0] & 0x3f);
    let mut i = 1;
    while i <= n_shifts {
        result = (result << 8) + u64::from(data[i]);
        i += 1;
    }'''))
r('u-is-empty', ('utils.rs', 'if data.len() == 0 {\n        return Err(Error::InternalError("missing first byte for varint"));', 'if data.is_empty() {\n        return Err(Error::InternalError("missing first byte for varint"));'))
r('u-ok-or', ('utils.rs', '''    let mut rv = 0u32;
    for _ in 0..n_bytes {
        rv <<= 8;
        rv |= u32::from(
            stream
                .next()
                .unwrap_or(Err(Error::InternalError("not enough bytes for var_u32")))?,
        );
    }
    Ok(rv)''', '''    let mut value = 0u32;
    for _ in 0..n_bytes {
        let byte = stream
            .next()
            .ok_or(Error::InternalError("not enough bytes for var_u32"))??;
        value = (value << 8) | u32::from(byte);
    }
    Ok(value)'''))
r('u-var-bytes-copy', ('utils.rs', '''        bytes.rotate_left(Self::BITS / 8 - len);
        bytes[..len].to_vec()''', '''        bytes[(Self::BITS / 8 - len)..].to_vec()'''), ('utils.rs', 'let mut bytes = self.to_bytes();', 'let bytes = self.to_bytes();'))
r('u-to-bytes-concat', ('utils.rs', '''        let mut tp_low = self.idx1;
        let mut tp_high = self.idx0;
        let mut rv = [0u8; 20];
        for i in 0..20 {
            rv[20 - i - 1] = (tp_low & 0xff) as u8;
            tp_low >>= 8;
            tp_low |= ((tp_high & 0xff) as u128) << 120;
            tp_high >>= 8;
        }
        rv''', '''        let mut rv = [0u8; 20];
        rv[..4].copy_from_slice(&self.idx0.to_be_bytes());
        rv[4..].copy_from_slice(&self.idx1.to_be_bytes());
        rv'''))
r('u-to-bytes-rev', ('utils.rs', '''        for i in 0..20 {
            rv[20 - i - 1] = (tp_low & 0xff) as u8;
            tp_low >>= 8;''', '''        for slot in rv.iter_mut().rev() {
            *slot = (tp_low & 0xff) as u8;
            tp_low >>= 8;'''))
r('u-floor-log2', ('utils.rs', '''    impl FloorLog2 for u64 {
        fn floor_log2(&self) -> error::Result<usize> {
            if *self == 0 {
                Err(Error::InternalError("no bits set"))
            } else {
                let mut rv = 0usize;
                let mut tp = self.clone();
                while tp > 0 {
                    rv += 1;
                    tp >>= 1;
                }
                Ok(rv)
            }''', '''    impl FloorLog2 for u64 {
        fn floor_log2(&self) -> error::Result<usize> {
            if *self == 0 {
                Err(Error::InternalError("no bits set"))
            } else {
                Ok((Self::BITS - self.leading_zeros()) as usize)
            }'''))
r('u-floor-ilog2', ('utils.rs', '''    impl FloorLog2 for u64 {
        fn floor_log2(&self) -> error::Result<usize> {
            if *self == 0 {
                Err(Error::InternalError("no bits set"))
            } else {
                let mut rv = 0usize;
                let mut tp = self.clone();
                while tp > 0 {
                    rv += 1;
                    tp >>= 1;
                }
                Ok(rv)
            }
''', '''    impl FloorLog2 for u64 {
        fn floor_log2(&self) -> error::Result<usize> {
            match self.checked_ilog2() {
                None => Err(Error::InternalError("no bits set")),
                Some(x) => Ok(x as usize + 1),
            }
'''))
r('u-floor-for', ('utils.rs', '''                let mut tp = self.clone();
                while tp > 0 {
                    rv += 1;
                    tp >>= 1;
                }''', '''                let mut tp = *self;
                loop {
                    if tp == 0 {
                        break;
                    }
                    tp /= 2;
                    rv += 1;
                }'''))
r('u-be-bytes', ('utils.rs', '''            if data.len() < size {
                return Err(Error::InternalError("not enough bytes for u64"));
            }
            let mut result: Self = 0;
            for i in 0..size {
                result <<= 8;
                result |= Self::from(data[i]);
            }
            Ok((result, size))''', '''            if data.len() < size {
                return Err(Error::InternalError("not enough bytes for u64"));
            }
            let result = data[..size]
                .iter()
                .fold(0, |acc: Self, x| (acc << 8) | Self::from(*x));
            Ok((result, size))'''))
# ---- connection.rs
r('c-early-return', ('connection.rs', '''        let rv = if let Some(x) = largest_ack {
            // see rfc-editor.org/rfc/rfc9000#section-a.3
            let expected_pn = x + 1;
            let pn_win = 1u64 << (8 * pn_length);
            let pn_hwin = pn_win / 2;
            let candidate_pn = (expected_pn & !(pn_win - 1)) | u64::from(tp_pn);
            if candidate_pn + pn_hwin <= expected_pn && candidate_pn < (1u64 << 62) - pn_win {
                candidate_pn + pn_win
            } else if candidate_pn > expected_pn + pn_hwin && candidate_pn >= pn_win {
                candidate_pn - pn_win
            } else {
                candidate_pn
            }
        } else {
            u64::from(tp_pn)
        };
        Ok(rv)''', '''        let expected_pn = match largest_ack {
            Some(x) => x + 1,
            None => return Ok(u64::from(tp_pn)),
        };
        // see rfc-editor.org/rfc/rfc9000#section-a.3
        let pn_win = 1u64 << (8 * pn_length);
        let pn_hwin = pn_win >> 1;
        let candidate_pn = (expected_pn & !(pn_win - 1)) | u64::from(tp_pn);
        if candidate_pn + pn_hwin <= expected_pn && candidate_pn < (1u64 << 62) - pn_win {
            return Ok(candidate_pn + pn_win);
        }
        if candidate_pn > expected_pn + pn_hwin && candidate_pn >= pn_win {
            return Ok(candidate_pn - pn_win);
        }
        Ok(candidate_pn)'''))
r('c-borrow-info', ('connection.rs', '''        let largest_ack = match pn_space {
            PacketNumberSpace::Initial => self.initial_pn_info.largest_remote_ack,
            PacketNumberSpace::Handshake => self.handshake_pn_info.largest_remote_ack,
            PacketNumberSpace::Application => self.application_pn_info.largest_remote_ack,
        };''', '''        let largest_ack = self.borrow_pn_info(pn_space).largest_remote_ack;'''))
r('c-decode-helper', ('connection.rs', '''        let rv = if let Some(x) = largest_ack {
            // see rfc-editor.org/rfc/rfc9000#section-a.3
            let expected_pn = x + 1;
            let pn_win = 1u64 << (8 * pn_length);
            let pn_hwin = pn_win / 2;
            let candidate_pn = (expected_pn & !(pn_win - 1)) | u64::from(tp_pn);
            if candidate_pn + pn_hwin <= expected_pn && candidate_pn < (1u64 << 62) - pn_win {
                candidate_pn + pn_win
            } else if candidate_pn > expected_pn + pn_hwin && candidate_pn >= pn_win {
                candidate_pn - pn_win
            } else {
                candidate_pn
            }
        } else {
            u64::from(tp_pn)
        };
        Ok(rv)''', '''        Ok(match largest_ack {
            Some(x) => decode_pn(x, u64::from(tp_pn), pn_length),
            None => u64::from(tp_pn),
        })'''), ('connection.rs', '''#[derive(Debug)]
pub struct Connection {''', '''/// see rfc-editor.org/rfc/rfc9000#section-a.3
fn decode_pn(largest: u64, truncated: u64, pn_length: usize) -> u64 {
    let expected_pn = largest + 1;
    let pn_win = 1u64 << (8 * pn_length);
    let pn_hwin = pn_win / 2;
    let candidate_pn = (expected_pn & !(pn_win - 1)) | truncated;
    if candidate_pn + pn_hwin <= expected_pn && candidate_pn < (1u64 << 62) - pn_win {
        candidate_pn + pn_win
    } else if candidate_pn > expected_pn + pn_hwin && candidate_pn >= pn_win {
        candidate_pn - pn_win
    } else {
        candidate_pn
    }
}

#[derive(Debug)]
pub struct Connection {'''))
r('c-next-pn', ('connection.rs', '''        let pn_info = match pn_space {
            PacketNumberSpace::Initial => &mut self.initial_pn_info,
            PacketNumberSpace::Handshake => &mut self.handshake_pn_info,
            PacketNumberSpace::Application => &mut self.application_pn_info,
        };
        pn_info.next_pn += 1;
        Ok((
            pn_info.next_pn,
            truncate_pn(pn_info.next_pn, pn_info.largest_local_ack)?,
        ))''', '''        let pn_info = self.borrow_mut_pn_info(pn_space);
        let pn = pn_info.next_pn + 1;
        pn_info.next_pn = pn;
        let truncated = truncate_pn(pn, pn_info.largest_local_ack)?;
        Ok((pn, truncated))'''))
r('c-truncate-ceil', ('connection.rs', '''            let byte_len = bit_len / 8 + if bit_len % 8 == 0 { 0 } else { 1 };''', '''            let byte_len = (bit_len + 7) / 8;'''))
r('c-truncate-div-ceil', ('connection.rs', '''            let byte_len = bit_len / 8 + if bit_len % 8 == 0 { 0 } else { 1 };''', '''            let byte_len = bit_len.div_ceil(8);'''))
r('c-truncate-helper', ('connection.rs', '''            let diff = pn - x;
            // one bit more than the difference needs, see rfc-editor.org/rfc/rfc9000#section-a.2
            let bit_len = diff.floor_log2()? + 1;
            let byte_len = bit_len / 8 + if bit_len % 8 == 0 { 0 } else { 1 };
            Ok''', '''            let byte_len = truncated_len(pn - x)?;
            Ok'''), ('connection.rs', '''fn truncate_pn(''', '''fn truncated_len(diff: u64) -> error::Result<usize> {
    // one bit more than the difference needs, see rfc-editor.org/rfc/rfc9000#section-a.2
    let bit_len = diff.floor_log2()? + 1;
    Ok(bit_len / 8 + if bit_len % 8 == 0 { 0 } else { 1 })
}

fn truncate_pn('''))
r('c-new-side', ('connection.rs', '''        let server_secrets =
            quictls::Secrets::from_initial(true, &dcid.to_var_bytes(dcid_len)[..], &version)?;
        let client_secrets =
            quictls::Secrets::from_initial(false, &dcid.to_var_bytes(dcid_len)[..], &version)?;
        let (local_tls_secrets, remote_tls_secrets) = if is_server {
            (server_secrets, client_secrets)
        } else {
            (client_secrets, server_secrets)
        };''', '''        let cid_bytes = dcid.to_var_bytes(dcid_len);
        let local_tls_secrets = quictls::Secrets::from_initial(is_server, &cid_bytes[..], &version)?;
        let remote_tls_secrets =
            quictls::Secrets::from_initial(!is_server, &cid_bytes[..], &version)?;'''))
r('c-mask-match', ('connection.rs', '''        let pn_info = self.borrow_pn_info(pn_space);
        pn_info.local_tls_secrets.as_ref().ok_or(Error::InternalError(
            "attempted to retrieve unset local tls secrets",
        ))''', '''        match self.borrow_pn_info(pn_space).local_tls_secrets {
            Some(ref secrets) => Ok(secrets),
            None => Err(Error::InternalError(
                "attempted to retrieve unset local tls secrets",
            )),
        }'''))
r('c-rename-field', *[('connection.rs', 'largest_local_ack', 'largest_acked_by_peer')])
r('c-rename-private-fn', *[('connection.rs', 'truncate_pn', 'encode_truncated_pn')])
# ---- frame.rs
r('f-match-reorder', ('frame.rs', '''        0x00 => Ok(Frame::Padding),
        0x01 => Ok(Frame::Ping),
''', '''        0x1e => Ok(Frame::HandshakeDone),
        0x01 => Ok(Frame::Ping),
        0x00 => Ok(Frame::Padding),
'''), ('frame.rs', '''        0x1e => Ok(Frame::HandshakeDone),
        _ => Err''', '''        _ => Err'''))
r('f-stream-flags', ('frame.rs', '''        let stream_data = match tp_length {
            Some(x) => var_bytes_from_stream(datagram, x as usize),
            None => all_bytes_from_stream(datagram),
        }?;''', '''        let stream_data = if let Some(x) = tp_length {
            var_bytes_from_stream(datagram, x as usize)?
        } else {
            all_bytes_from_stream(datagram)?
        };'''))
r('f-stream-merge', ('frame.rs', '''        let tp_length = if has_length {
            Some(var_int_from_stream(datagram)?)
        } else {
            None
        };
        let stream_data = match tp_length {
            Some(x) => var_bytes_from_stream(datagram, x as usize),
            None => all_bytes_from_stream(datagram),
        }?;''', '''        let stream_data = if has_length {
            let length = var_int_from_stream(datagram)?;
            var_bytes_from_stream(datagram, length as usize)?
        } else {
            all_bytes_from_stream(datagram)?
        };'''))
r('f-flag-ne', ('frame.rs', 'let has_offset = type_byte & 0x04 == 0x04;', 'let has_offset = (type_byte & 0x04) != 0;'), ('frame.rs', 'let has_length = type_byte & 0x02 == 0x02;', 'let has_length = (type_byte & 0x02) != 0;'))
r('f-serialize-for', ('frame.rs', '''    let frames_len = frames.len();
    let mut results = frames
        .iter()
        .enumerate()
        .map(|(idx, frame)| frame.to_bytes(is_df_end && idx == frames_len - 1));
    let mut bytes_vec = Vec::<Vec<u8>>::with_capacity(results.len());
    while let Some(bytes) = results.next() {
        bytes_vec.push(bytes?);
    }
    Ok(bytes_vec.into_iter().flatten().collect::<Vec<_>>())''', '''    let frames_len = frames.len();
    let mut rv = Vec::<u8>::new();
    for (idx, frame) in frames.iter().enumerate() {
        rv.extend(frame.to_bytes(is_df_end && idx + 1 == frames_len)?);
    }
    Ok(rv)'''))
r('f-serialize-collect', ('frame.rs', '''    let mut results = frames
        .iter()
        .enumerate()
        .map(|(idx, frame)| frame.to_bytes(is_df_end && idx == frames_len - 1));
    let mut bytes_vec = Vec::<Vec<u8>>::with_capacity(results.len());
    while let Some(bytes) = results.next() {
        bytes_vec.push(bytes?);
    }
    Ok(bytes_vec.into_iter().flatten().collect::<Vec<_>>())''', '''    let bytes_vec = frames
        .iter()
        .enumerate()
        .map(|(idx, frame)| frame.to_bytes(is_df_end && idx == frames_len - 1))
        .collect::<error::Result<Vec<_>>>()?;
    Ok(bytes_vec.concat())'''))
r('f-ack-for', ('frame.rs', '''        let mut tp_ack_range_bytes = Vec::<Vec<u8>>::new();
        let mut ack_range_iter = self.ack_range.iter();
        while let Some(x) = ack_range_iter.next() {
            tp_ack_range_bytes.push(x.to_bytes()?);
        }
        let ack_range_bytes = tp_ack_range_bytes.into_iter().flatten().collect::<Vec<_>>();''', '''        let mut ack_range_bytes = Vec::<u8>::new();
        for x in self.ack_range.iter() {
            ack_range_bytes.extend_from_slice(&x.to_bytes()?);
        }'''))
r('f-ack-while', ('frame.rs', '''        for _ in 0..ack_range_count {
            ack_range.push(AckRange::from_datagram(datagram)?);
        }''', '''        let mut remaining = ack_range_count;
        while remaining > 0 {
            ack_range.push(AckRange::from_datagram(datagram)?);
            remaining -= 1;
        }'''))
r('f-ack-helper', ('frame.rs', '''        // dynamic to avoid malicious allocation
        let mut ack_range = Vec::<AckRange>::new();
        for _ in 0..ack_range_count {
            ack_range.push(AckRange::from_datagram(datagram)?);
        }
''', '''        let ack_range = Self::read_ranges(datagram, ack_range_count)?;
'''), ('frame.rs', '''    pub fn new() -> Self {
        todo!();
    }
''', '''    pub fn new() -> Self {
        todo!();
    }
    fn read_ranges<T>(datagram: &mut T, count: u64) -> error::Result<Vec<AckRange>>
    where
        T: Iterator<Item = error::Result<u8>>,
    {
        // dynamic to avoid malicious allocation
        let mut ranges = Vec::<AckRange>::new();
        for _ in 0..count {
            ranges.push(AckRange::from_datagram(datagram)?);
        }
        Ok(ranges)
    }
'''))
r('f-deser-loop', ('frame.rs', '''    while peekable_df.peek().is_some() {
        let frame = deserialize_frame(&mut peekable_df)?;
        rv.push(frame);
    }
    Ok(rv)''', '''    loop {
        if peekable_df.peek().is_none() {
            break;
        }
        rv.push(deserialize_frame(&mut peekable_df)?);
    }
    Ok(rv)'''))
r('f-bytes-push', ('frame.rs', '''        Ok([
            &[0x04u8][..],
            &utils::encode_var_int(self.stream_id)?[..],
            &utils::encode_var_int(self.application_protocol_error_code)?[..],
            &utils::encode_var_int(self.final_size)?[..],
        ]
        .concat())''', '''        let mut rv = vec![0x04u8];
        rv.extend_from_slice(&utils::encode_var_int(self.stream_id)?);
        rv.extend_from_slice(&utils::encode_var_int(self.application_protocol_error_code)?);
        rv.extend_from_slice(&utils::encode_var_int(self.final_size)?);
        Ok(rv)'''))
r('f-reorder-lets', ('frame.rs', '''        let stream_id_bytes = utils::encode_var_int(self.stream_id)?;
        let offset_bytes = if has_offset {
            utils::encode_var_int(self.offset)?
        } else {
            vec![]
        };
        let len_bytes''', '''        let offset_bytes = if has_offset {
            utils::encode_var_int(self.offset)?
        } else {
            Vec::new()
        };
        let stream_id_bytes = utils::encode_var_int(self.stream_id)?;
        let len_bytes'''))
r('f-cid-range', ('frame.rs', 'if 1 > length || length > 20 {', 'if !(1..=20).contains(&length) {'))
r('f-type-mut', ('frame.rs', '''        let type_byte = 0x08u8
            | if has_offset { 0x04u8 } else { 0x00u8 }
            | if include_len { 0x02u8 } else { 0x00u8 }
            | if self.is_fin { 0x01u8 } else { 0x00u8 };''', '''        let mut type_byte = 0x08u8;
        if has_offset {
            type_byte |= 0x04;
        }
        if include_len {
            type_byte |= 0x02;
        }
        if self.is_fin {
            type_byte |= 0x01;
        }'''))
r('f-try-from', ('frame.rs', '''    if type_byte > u64::from(u8::MAX) {
        return Err(Error::InternalError("Invalid type byte"));
    }
    let type_byte = type_byte as u8;''', '''    let type_byte =
        u8::try_from(type_byte).map_err(|_| Error::InternalError("Invalid type byte"))?;'''))
# ---- packet.rs
r('p-xor-zip', ('packet.rs', '''        for i in 0..pn_bytes.len() {
            pn_bytes[i] ^= mask[i + 1];
        }''', '''        for (b, m) in pn_bytes.iter_mut().zip(mask[1..].iter()) {
            *b ^= *m;
        }'''))
r('p-xor-early', ('packet.rs', '''    if pn_bytes.len() > 4 {
        Err(Error::InternalError("too many bytes for packet number"))
    } else {
        for i in 0..pn_bytes.len() {
            pn_bytes[i] ^= mask[i + 1];
        }
        Ok(())
    }''', '''    if pn_bytes.len() > 4 {
        return Err(Error::InternalError("too many bytes for packet number"));
    }
    for (i, byte) in pn_bytes.iter_mut().enumerate() {
        *byte ^= mask[i + 1];
    }
    Ok(())'''))
r('p-cid-helper', ('packet.rs', '''            let dcid_len = u8::from_datagram(stream)?;
            if dcid_len > 20 {
                return Err(Error::InternalError(
                    "invalid destination connection id length",
                ));
            }
            let dcid = var_u160_from_stream(stream, dcid_len)?;
''', '''            let (dcid_len, dcid) =
                read_connection_id(stream, "invalid destination connection id length")?;
'''), ('packet.rs', '''            let scid_len = u8::from_datagram(stream)?;
            // version negotiation must not be limited to the supported version's id length rules
            if scid_len > 20 {
                return Err(Error::InternalError("invalid source connection id length"));
            }
            let scid = var_u160_from_stream(stream, scid_len)?;
''', '''            let (scid_len, scid) =
                read_connection_id(stream, "invalid source connection id length")?;
'''), ('packet.rs', '''impl LongPacketHeader {
    const''', '''fn read_connection_id<T>(stream: &mut T, msg: &'static str) -> error::Result<(u8, U160)>
where
    T: Iterator<Item = error::Result<u8>>,
{
    let len = u8::from_datagram(stream)?;
    if len > 20 {
        return Err(Error::InternalError(msg));
    }
    Ok((len, var_u160_from_stream(stream, len)?))
}

impl LongPacketHeader {
    const'''))
r('p-protected-matches', ('packet.rs', '''        let is_protected = match rv.packet_type() {
            PacketType::Retry => false,
            PacketType::VersionNegotiation => false,
            _ => true,
        };
        rv.is_protected = is_protected;''', '''        rv.is_protected = !matches!(
            rv.packet_type(),
            PacketType::Retry | PacketType::VersionNegotiation
        );'''))
r('p-type-if', ('packet.rs', '''        match self.version {
            VERSION_NEGOTIATION_VERSION_VALUE => PacketType::VersionNegotiation,
            _ => {
                let type_bits = (self.header_byte & ((1 << 6) - 1)) >> 4;
                match type_bits {
                    0x00 => PacketType::Initial,
                    0x01 => PacketType::ZeroRtt,
                    0x02 => PacketType::Handshake,
                    0x03 => PacketType::Retry,
                    _ => unreachable!(),
                }
            }
        }''', '''        if self.version == VERSION_NEGOTIATION_VERSION_VALUE {
            return PacketType::VersionNegotiation;
        }
        match (self.header_byte >> 4) & 0x03 {
            0x00 => PacketType::Initial,
            0x01 => PacketType::ZeroRtt,
            0x02 => PacketType::Handshake,
            _ => PacketType::Retry,
        }'''))
r('p-pn-helper', ('packet.rs', '''            Ok((self.header_byte & 0x03) as usize + 1)
        }
    }

    pub fn packet_type''', '''            Ok(Self::pn_length_from_header_byte(self.header_byte) as usize)
        }
    }

    pub fn packet_type'''))
r('p-ad-helper', ('packet.rs', '''        let associated_data = [
            &self.header.to_bytes()[..],
            &token_length_bytes[..],
            &self.token[..],
            &length_bytes[..],
            &self.packet_number_bytes[..],
        ]
        .concat();''', '''        let associated_data = self.associated_data(&token_length_bytes[..], &length_bytes[..]);'''), ('packet.rs', '''    /// Serializes packet to bytes with both packet protection and header protection
    /// applied.
    ///
    /// Note: connection used to construct this packet should be the same as sent to this
    /// The only reason it is not stored is due to connection being behind a lock
    fn serialize(&self, connection: &Connection) -> error::Result<Vec<u8>> {
        let payload_bytes = serialize_frames(&self.packet_payload[..], false)?;
        let pn_length = self.header.packet_number_length()?;
        let length = (connection
            .get_local_protected_payload_len(Self::PN_SPACE, payload_bytes.len())?
            + pn_length) as u64;
        let length_bytes = utils::encode_var_int(length)?;
        let token_length_bytes''', '''    fn associated_data(&self, token_length_bytes: &[u8], length_bytes: &[u8]) -> Vec<u8> {
        [
            &self.header.to_bytes()[..],
            token_length_bytes,
            &self.token[..],
            length_bytes,
            &self.packet_number_bytes[..],
        ]
        .concat()
    }

    fn serialize(&self, connection: &Connection) -> error::Result<Vec<u8>> {
        let payload_bytes = serialize_frames(&self.packet_payload[..], false)?;
        let pn_length = self.header.packet_number_length()?;
        let length = (connection
            .get_local_protected_payload_len(Self::PN_SPACE, payload_bytes.len())?
            + pn_length) as u64;
        let length_bytes = utils::encode_var_int(length)?;
        let token_length_bytes'''))
r('p-serialize-reorder', ('packet.rs', '''        let length_bytes = utils::encode_var_int(length)?;
        let token_length_bytes = utils::encode_var_int(self.token.len() as u64)?;''', '''        let token_length_bytes = utils::encode_var_int(self.token.len() as u64)?;
        let length_bytes = utils::encode_var_int(length)?;'''))
r('p-token-unwrap', ('packet.rs', 'let token = if let Some(x) = token { x } else { vec![] };', 'let token = token.unwrap_or_default();'))
r('p-vn-loop', ('packet.rs', '''        let mut supported_versions_results = supported_versions_bytes
            .chunks(4)
            .map(|x| u32::from_datagram(&mut utils::make_result_stream(x)));
        let mut supported_versions = Vec::<u32>::with_capacity(supported_versions_results.len());
        while let Some(x) = supported_versions_results.next() {
            supported_versions.push(x?);
        }''', '''        let mut supported_versions = Vec::<u32>::with_capacity(supported_versions_bytes.len() / 4);
        for chunk in supported_versions_bytes.chunks(4) {
            supported_versions.push(u32::from_datagram(&mut utils::make_result_stream(chunk))?);
        }'''))
r('p-len-if', ('packet.rs', '''        let protected_frame_length = (length as usize)
            .checked_sub(packet_number_length)
            .ok_or(Error::InternalError("packet length too short"))?;''', '''        let length_val = length as usize;
        if length_val < packet_number_length {
            return Err(Error::InternalError("packet length too short"));
        }
        let protected_frame_length = length_val - packet_number_length;'''))
r('p-unprotect-helper', ('packet.rs', '''        // get largest potential packet number
        let mut offset_stream = stream.clone();
        let mut packet_number_bytes_protected = var_bytes_from_stream(&mut offset_stream, 4)?;
        let mask = connection.get_remote_hp_mask(Self::PN_SPACE, &mut offset_stream)?;
        header.remove_protection(&mask);
        let packet_number_length = header.packet_number_length()?;
        xor_pn_protection(&mut packet_number_bytes_protected, &mask)?;
        let packet_number_bytes = packet_number_bytes_protected[..packet_number_length].to_vec();
        // the payload starts directly after the packet number
        var_bytes_from_stream(stream, packet_number_length)?;
        let packet_number =
            connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_bytes[..])?;
        let protected_frame_length''', '''        let packet_number_bytes = Self::unprotect_header(stream, &mut header, connection)?;
        let packet_number_length = packet_number_bytes.len();
        let packet_number =
            connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_bytes[..])?;
        let protected_frame_length'''), ('packet.rs', '''    fn from_stream<T>(stream: &mut T, connection: &Connection) -> error::Result<Self>
    where
        T: Iterator<Item = error::Result<u8>> + Clone,
    {
        let header_byte = u8::from_datagram(stream)?;
        let mut header = LongPacketHeader::from_stream(stream, header_byte)?;
        let (token_length''', '''    fn unprotect_header<T>(
        stream: &mut T,
        header: &mut LongPacketHeader,
        connection: &Connection,
    ) -> error::Result<Vec<u8>>
    where
        T: Iterator<Item = error::Result<u8>> + Clone,
    {
        let mut offset_stream = stream.clone();
        let mut pn_bytes = var_bytes_from_stream(&mut offset_stream, 4)?;
        let mask = connection.get_remote_hp_mask(Self::PN_SPACE, &mut offset_stream)?;
        header.remove_protection(&mask);
        let pn_length = header.packet_number_length()?;
        xor_pn_protection(&mut pn_bytes, &mask)?;
        // the payload starts directly after the packet number
        var_bytes_from_stream(stream, pn_length)?;
        Ok(pn_bytes[..pn_length].to_vec())
    }
    fn from_stream<T>(stream: &mut T, connection: &Connection) -> error::Result<Self>
    where
        T: Iterator<Item = error::Result<u8>> + Clone,
    {
        let header_byte = u8::from_datagram(stream)?;
        let mut header = LongPacketHeader::from_stream(stream, header_byte)?;
        let (token_length'''))
r('p-pn-valid', ('packet.rs', '''        if !(0 < pn_length && pn_length <= 4) {
            return Err(Error::InternalError("invalid truncated_pn"));
        }
        let header_byte = Self::new_header_byte(pn_length - 1);
        let header = LongPacketHeader::from_connection(connection, header_byte)?;
        let token''', '''        if pn_length == 0 || pn_length > 4 {
            return Err(Error::InternalError("invalid truncated_pn"));
        }
        let header = LongPacketHeader::from_connection(
            connection,
            Self::new_header_byte(pn_length - 1),
        )?;
        let token'''))
# ---- routing.rs
r('r-helper-lookup', ('routing.rs', '''        let connection_id = match route_header {
            PacketHeader::Short(ref x) => x.destination_connection_id,
            PacketHeader::Long(ref x) => x.destination_connection_id,
        };
        match''', '''        let connection_id = route_header.get_destination_id();
        match'''))
r('r-is-new', ('routing.rs', '''                        let packet_type = match x {
                            PacketHeader::Long(ref x) => x.packet_type(),
                            PacketHeader::Short(ref x) => x.packet_type(),
                        };
                        let dcid = match x {
                            PacketHeader::Long(ref x) => x.destination_connection_id,
                            PacketHeader::Short(ref x) => x.destination_connection_id,
                        };
                        match packet_type {
                            PacketType::Initial => {
                                !self.streams.read().unwrap().contains_key(&dcid)
                            }
                            // TODO ZeroRtt packets should be buffered from here
                            _ => false,
                        }''', '''                        let dcid = x.get_destination_id();
                        // TODO ZeroRtt packets should be buffered from here
                        match x.get_packet_type() {
                            PacketType::Initial => {
                                !self.streams.read().unwrap().contains_key(&dcid)
                            }
                            _ => false,
                        }'''))
r('r-let-streams', ('routing.rs', '''        match self.streams.read().unwrap().get(&connection_id) {
            Some(x) => x
                .sender
                .send(datagram)
                .map_err(|_| Error::InternalError("error sending data to channel")),
            None => Err(Error::InternalError("missing connection")),
        }''', '''        let streams = self.streams.read().unwrap();
        let target = streams
            .get(&connection_id)
            .ok_or(Error::InternalError("missing connection"))?;
        target
            .sender
            .send(datagram)
            .map_err(|_| Error::InternalError("error sending data to channel"))'''))
r('r-continue', ('routing.rs', '''            if ret_datagram {
                return Ok(datagram);
            } else {
                // a datagram that cannot be routed is dropped
                if let Err(x) = self.route_datagram(datagram) {
                    eprintln!("{:?}", x);
                }
            }''', '''            if ret_datagram {
                return Ok(datagram);
            }
            // a datagram that cannot be routed is dropped
            match self.route_datagram(datagram) {
                Ok(()) => {}
                Err(x) => eprintln!("{:?}", x),
            }'''))
r('r-drop-let', ('routing.rs', 'self.streams.write().unwrap().remove(&cid);', 'let mut streams = self.streams.write().unwrap();\n        streams.remove(&cid);'))
r('r-is-new-method', ('routing.rs', '''            let ret_datagram = {
                let mut stream = utils::make_result_stream(&datagram.data);
                match next_header_from_stream(&mut stream) {
                    Ok(x) => {
                        let packet_type = match x {
                            PacketHeader::Long(ref x) => x.packet_type(),
                            PacketHeader::Short(ref x) => x.packet_type(),
                        };
                        let dcid = match x {
                            PacketHeader::Long(ref x) => x.destination_connection_id,
                            PacketHeader::Short(ref x) => x.destination_connection_id,
                        };
                        match packet_type {
                            PacketType::Initial => {
                                !self.streams.read().unwrap().contains_key(&dcid)
                            }
                            // TODO ZeroRtt packets should be buffered from here
                            _ => false,
                        }
                    }
                    Err(x) => {
                        // TODO implement proper error handling
                        eprintln!("{:?}", x);
                        false
                    }
                }
            };
            if ret_datagram {''', '''            if self.is_new_initial(&datagram) {'''), ('routing.rs', '''    fn recv_new_initial_datagram''', '''    fn is_new_initial(&self, datagram: &InternalDatagram) -> bool {
        let mut stream = utils::make_result_stream(&datagram.data);
        match next_header_from_stream(&mut stream) {
            Ok(x) => {
                let dcid = x.get_destination_id();
                match x.get_packet_type() {
                    PacketType::Initial => !self.streams.read().unwrap().contains_key(&dcid),
                    // TODO ZeroRtt packets should be buffered from here
                    _ => false,
                }
            }
            Err(x) => {
                // TODO implement proper error handling
                eprintln!("{:?}", x);
                false
            }
        }
    }
    fn recv_new_initial_datagram'''))
# ---- quictls
NONCE_E = '''        let mut iv_internal;
        let iv = match self.iv {
            Some(ref x) => {
                let pn_bytes = packet_number.to_be_bytes();
                iv_internal = x.clone();
                let iv_len = iv_internal.len();
                let length = pn_bytes.len().min(iv_len);
                for i in 0..length {
                    iv_internal[iv_len - i - 1] ^= pn_bytes[pn_bytes.len() - i - 1];
                }
                Some(&iv_internal[..])
            }
            None => None,
        };
        (self.cipher_suite.%s)(&self.key[..], iv, associated_data, payload)'''
r('s-nonce-helper', ('quictls/secrets.rs', NONCE_E % 'encrypt', '''        let nonce = self.nonce(packet_number);
        (self.cipher_suite.encrypt)(&self.key[..], nonce.as_deref(), associated_data, payload)'''), ('quictls/secrets.rs', NONCE_E % 'decrypt', '''        let nonce = self.nonce(packet_number);
        (self.cipher_suite.decrypt)(&self.key[..], nonce.as_deref(), associated_data, payload)'''), ('quictls/secrets.rs', '''    pub fn encrypt_payload(''', '''    fn nonce(&self, packet_number: u64) -> Option<Vec<u8>> {
        match self.iv {
            Some(ref x) => {
                let pn_bytes = packet_number.to_be_bytes();
                let mut iv_internal = x.clone();
                let iv_len = iv_internal.len();
                let length = pn_bytes.len().min(iv_len);
                for i in 0..length {
                    iv_internal[iv_len - i - 1] ^= pn_bytes[pn_bytes.len() - i - 1];
                }
                Some(iv_internal)
            }
            None => None,
        }
    }
    pub fn encrypt_payload('''))
r('s-nonce-zip', ('quictls/secrets.rs', NONCE_E % 'encrypt', (NONCE_E % 'encrypt').replace('''                let iv_len = iv_internal.len();
                let length = pn_bytes.len().min(iv_len);
                for i in 0..length {
                    iv_internal[iv_len - i - 1] ^= pn_bytes[pn_bytes.len() - i - 1];
                }
''', '''                for (n, p) in iv_internal.iter_mut().rev().zip(pn_bytes.iter().rev()) {
                    *n ^= *p;
                }
''')))
r('s-label-match', ('quictls/secrets.rs', '''        let label = if server {
            SERVER_INITIAL_SECRET_LABEL
        } else {
            CLIENT_INITIAL_SECRET_LABEL
        };''', '''        let label = match server {
            true => SERVER_INITIAL_SECRET_LABEL,
            false => CLIENT_INITIAL_SECRET_LABEL,
        };'''))
r('s-split-at', ('quictls/cipher_suite.rs', '''    let tag = &payload[(payload.len() - AES_128_GCM_TAG_LEN)..];
    let cipher_text = &payload[..(payload.len() - 16)];''', '''    let (cipher_text, tag) = payload.split_at(payload.len() - AES_128_GCM_TAG_LEN);'''))
r('s-split-idx', ('quictls/cipher_suite.rs', '''    let tag = &payload[(payload.len() - AES_128_GCM_TAG_LEN)..];
    let cipher_text = &payload[..(payload.len() - 16)];''', '''    let split = payload.len() - AES_128_GCM_TAG_LEN;
    let cipher_text = &payload[..split];
    let tag = &payload[split..];'''))
r('s-encrypt-extend', ('quictls/cipher_suite.rs', '''    let cipher_text = encrypt_aead(''', '''    let mut cipher_text = encrypt_aead('''), ('quictls/cipher_suite.rs', '''    Ok([&cipher_text[..], &tag[..]].concat())''', '''    cipher_text.extend_from_slice(&tag);
    Ok(cipher_text)'''))
r('s-mask-copy', ('quictls/cipher_suite.rs', 'rv.clone_from_slice(&result[..5]);', 'rv.copy_from_slice(&result[..5]);'))
r('s-label-order', ('quictls/cipher_suite.rs', '''    if length > u16::MAX as usize {
        return Err(Error::InternalError("length does not fit in u16"));
    }
    if context.len() > u8::MAX as usize {
        return Err(Error::InternalError("context length does not fit in u8"));
    }
    let new_label = [b"tls13 ", label].concat();
    if new_label.len() > u8::MAX as usize {
        return Err(Error::InternalError("label length does not fit in u8"));
    }''', '''    let new_label = [b"tls13 ", label].concat();
    if context.len() > u8::MAX as usize {
        return Err(Error::InternalError("context length does not fit in u8"));
    }
    if length > u16::MAX as usize {
        return Err(Error::InternalError("length does not fit in u16"));
    }
    if new_label.len() > u8::MAX as usize {
        return Err(Error::InternalError("label length does not fit in u8"));
    }'''))
# ---- params, error
r('t-helper', ('transport_parameters.rs', '''        let length_bytes = utils::encode_var_int(value_bytes.len() as u64)?;
        Ok([&identifier_bytes[..], &length_bytes[..], &value_bytes[..]].concat())''', '''        Self::frame_value(&identifier_bytes[..], &value_bytes[..])'''), ('transport_parameters.rs', '''    pub fn serialize(&self)''', '''    fn frame_value(identifier: &[u8], value: &[u8]) -> error::Result<Vec<u8>> {
        let length_bytes = utils::encode_var_int(value.len() as u64)?;
        Ok([identifier, &length_bytes[..], value].concat())
    }
    pub fn serialize(&self)'''))
r('t-or-pattern', ('transport_parameters.rs', '''            Self::MaxIdleTimeout(x) => utils::encode_var_int(*x)?,
''', '''            Self::MaxIdleTimeout(x) | Self::MaxUdpPayloadSize(x) => utils::encode_var_int(*x)?,
'''), ('transport_parameters.rs', '''            Self::MaxUdpPayloadSize(x) => utils::encode_var_int(*x)?,
            Self::InitialMaxData(x)''', '''            Self::InitialMaxData(x)'''))
r('t-extend', ('transport_parameters.rs', '''        Ok([&identifier_bytes[..], &length_bytes[..], &value_bytes[..]].concat())''', '''        let mut rv = identifier_bytes;
        rv.extend(length_bytes);
        rv.extend(value_bytes);
        Ok(rv)'''))
# ---- interface, accept, bind
r('i-drop-let', ('interface.rs', '''        self.socket.drop_connection(self.connection_id);''', '''        let id = self.connection_id;
        self.socket.as_ref().drop_connection(id);'''))
r('i-new-stream', ('interface.rs', '''        let connection_id = self.socket.accept()?;
        Ok(QuicStream {
            connection_id,
            socket: self.socket.clone(),
        })''', '''        Ok(self.stream(self.socket.accept()?))'''), ('interface.rs', '''    pub fn set_log_traffic''', '''    fn stream(&self, connection_id: U160) -> QuicStream {
        QuicStream {
            connection_id,
            socket: Arc::clone(&self.socket),
        }
    }
    pub fn set_log_traffic'''))
r('r-bind-inline', ('routing.rs', '''        let socket = Mutex::new(UdpSocket::bind(addresses)?);
        let init_map = HashMap::<U160, InternalQuicStream>::new();
        let streams = RwLock::new(init_map);
        Ok(Self {
            socket,
            streams,
            log_traffic: RwLock::new(false),
        })''', '''        let socket = UdpSocket::bind(addresses)?;
        Ok(Self {
            socket: Mutex::new(socket),
            streams: RwLock::new(HashMap::new()),
            log_traffic: RwLock::new(false),
        })'''))
r('r-accept-register', ('routing.rs', '''        let rv = || -> U160 {
            loop {
                let src_id = quictls::utils::get_connection_id();
                let key = U160::from(src_id);
                {
                    let mut streams = self.streams.write().unwrap();
                    if !streams.contains_key(&key) {
                        stream.connection.write().unwrap().set_scid(key, 8usize);
                        streams.insert(key.clone(), stream);
                        return key;
                    }
                }
            }
        }();''', '''        let rv = self.register(stream);'''), ('routing.rs', '''    pub fn accept(&self)''', '''    fn register(&self, stream: InternalQuicStream) -> U160 {
        loop {
            let key = U160::from(quictls::utils::get_connection_id());
            let mut streams = self.streams.write().unwrap();
            if !streams.contains_key(&key) {
                stream.connection.write().unwrap().set_scid(key, 8usize);
                streams.insert(key, stream);
                return key;
            }
        }
    }
    pub fn accept(&self)'''))
r('r-accept-loop', ('routing.rs', '''        let rv = || -> U160 {
            loop {
                let src_id = quictls::utils::get_connection_id();
                let key = U160::from(src_id);
                {
                    let mut streams = self.streams.write().unwrap();
                    if !streams.contains_key(&key) {
                        stream.connection.write().unwrap().set_scid(key, 8usize);
                        streams.insert(key.clone(), stream);
                        return key;
                    }
                }
            }
        }();''', '''        let rv = loop {
            let key = U160::from(quictls::utils::get_connection_id());
            let mut streams = self.streams.write().unwrap();
            if streams.contains_key(&key) {
                continue;
            }
            stream.connection.write().unwrap().set_scid(key, 8usize);
            streams.insert(key, stream);
            break key;
        };'''))
r('r-close-match', ('routing.rs', '''        self.streams.write().unwrap().remove(&cid);''', '''        let mut streams = self.streams.write().unwrap();
        if streams.contains_key(&cid) {
            streams.remove(&cid);
        }'''))
r('r-close-ignored', ('routing.rs', '''        self.streams.write().unwrap().remove(&cid);''', '''        let _ = self.streams.write().unwrap().remove(&cid);'''))
r('r-route-question', ('routing.rs', '''        match self.streams.read().unwrap().get(&connection_id) {
            Some(x) => x
                .sender
                .send(datagram)
                .map_err(|_| Error::InternalError("error sending data to channel")),
            None => Err(Error::InternalError("missing connection")),
        }''', '''        let streams = self.streams.read().unwrap();
        let stream = streams
            .get(&connection_id)
            .ok_or(Error::InternalError("missing connection"))?;
        stream
            .sender
            .send(datagram)
            .map_err(|_| Error::InternalError("error sending data to channel"))'''))
r('p-decode-while-some', ('packet.rs', '''    while !stream.clone().next().is_none() {''', '''    while stream.clone().next().is_some() {'''))
r('p-decode-loop', ('packet.rs', '''    while !stream.clone().next().is_none() {
        rv.push(decode_next_packet(stream, connection)?);
    }
    Ok(rv)''', '''    loop {
        if stream.clone().next().is_none() {
            return Ok(rv);
        }
        let packet = decode_next_packet(stream, connection)?;
        rv.push(packet);
    }'''))
r('p-next-let-else', ('packet.rs', '''    let header_byte = stream
        .next()
        .unwrap_or(Err(Error::InternalError("no header byte found")))?;
    if header_byte & 0x80 == 0x80 {
        let res = LongPacketHeader::from_stream(stream, header_byte)?;
        Ok(PacketHeader::Long(res))
    } else {
        let res = ShortPacketHeader::from_stream(stream, header_byte)?;
        Ok(PacketHeader::Short(res))
    }''', '''    let header_byte = match stream.next() {
        Some(x) => x?,
        None => return Err(Error::InternalError("no header byte found")),
    };
    if header_byte & 0x80 == 0 {
        return ShortPacketHeader::from_stream(stream, header_byte).map(PacketHeader::Short);
    }
    LongPacketHeader::from_stream(stream, header_byte).map(PacketHeader::Long)'''))
r('p-dispatch-map', ('packet.rs', '''            PacketType::Handshake => {
                let res = PacketHandshake::from_stream(stream, connection)?;
                Ok(Packet::Handshake(res))
            }
            PacketType::Initial => {
                let res = PacketInitial::from_stream(stream, connection)?;
                Ok(Packet::Initial(res))
            }''', '''            PacketType::Initial => Ok(Packet::Initial(PacketInitial::from_stream(stream, connection)?)),
            PacketType::Handshake => PacketHandshake::from_stream(stream, connection).map(Packet::Handshake),'''))
r('u-enc-match', ('utils.rs', '''    let n_shifts = if x <= VARINT_ONELEN_MAX {
        0
    } else if x <= VARINT_TWOLEN_MAX {
        1
    } else if x <= VARINT_THREELEN_MAX {
        2
    } else if x <= VARINT_FOURLEN_MAX {
        3
    } else {
        return Err(Error::InternalError("var int overflow"));
    };''', '''    let n_shifts = match x {
        0..=VARINT_ONELEN_MAX => 0,
        0..=VARINT_TWOLEN_MAX => 1,
        0..=VARINT_THREELEN_MAX => 2,
        0..=VARINT_FOURLEN_MAX => 3,
        _ => return Err(Error::InternalError("var int overflow")),
    };'''))
r('u-enc-guard-first', ('utils.rs', '''    let n_shifts = if x <= VARINT_ONELEN_MAX {
        0
    } else if x <= VARINT_TWOLEN_MAX {
        1
    } else if x <= VARINT_THREELEN_MAX {
        2
    } else if x <= VARINT_FOURLEN_MAX {
        3
    } else {
        return Err(Error::InternalError("var int overflow"));
    };''', '''    if x > VARINT_FOURLEN_MAX {
        return Err(Error::InternalError("var int overflow"));
    }
    let n_shifts = if x > VARINT_THREELEN_MAX {
        3
    } else if x > VARINT_TWOLEN_MAX {
        2
    } else if x > VARINT_ONELEN_MAX {
        1
    } else {
        0
    };'''))
r('u-var-bytes-match', ('utils.rs', '''        let tp = stream
            .next()
            .unwrap_or(Err(Error::InternalError("not enough bytes for var_bytes")));
        if tp.is_err() {
            println!("failed at: {}", i);
            io::stdout().flush().unwrap();
        }
        rv.push(tp?);''', '''        match stream.next() {
            Some(Ok(x)) => rv.push(x),
            Some(Err(e)) => {
                println!("failed at: {}", i);
                io::stdout().flush().unwrap();
                return Err(e);
            }
            None => {
                println!("failed at: {}", i);
                io::stdout().flush().unwrap();
                return Err(Error::InternalError("not enough bytes for var_bytes"));
            }
        }'''))
r('c-recon-helper', ('connection.rs', '''        let rv = if let Some(x) = largest_ack {
            // see rfc-editor.org/rfc/rfc9000#section-a.3
            let expected_pn = x + 1;
            let pn_win = 1u64 << (8 * pn_length);
            let pn_hwin = pn_win / 2;
            let candidate_pn = (expected_pn & !(pn_win - 1)) | u64::from(tp_pn);
            if candidate_pn + pn_hwin <= expected_pn && candidate_pn < (1u64 << 62) - pn_win {
                candidate_pn + pn_win
            } else if candidate_pn > expected_pn + pn_hwin && candidate_pn >= pn_win {
                candidate_pn - pn_win
            } else {
                candidate_pn
            }
        } else {
            u64::from(tp_pn)
        };
        Ok(rv)''', '''        Ok(match largest_ack {
            Some(x) => decode_pn(x, tp_pn, pn_length),
            None => u64::from(tp_pn),
        })'''), ('connection.rs', '''#[derive(Debug)]
pub struct Connection {''', '''// see rfc-editor.org/rfc/rfc9000#section-a.3
fn decode_pn(largest: u64, truncated: u32, n_bytes: usize) -> u64 {
    let expected_pn = largest + 1;
    let pn_win = 1u64 << (8 * n_bytes);
    let pn_hwin = pn_win / 2;
    let candidate_pn = (expected_pn & !(pn_win - 1)) | u64::from(truncated);
    if candidate_pn + pn_hwin <= expected_pn && candidate_pn < (1u64 << 62) - pn_win {
        return candidate_pn + pn_win;
    }
    if candidate_pn > expected_pn + pn_hwin && candidate_pn >= pn_win {
        return candidate_pn - pn_win;
    }
    candidate_pn
}

#[derive(Debug)]
pub struct Connection {'''))
r('c-next-pn-borrow', ('connection.rs', '''        let pn_info = match pn_space {
            PacketNumberSpace::Initial => &mut self.initial_pn_info,
            PacketNumberSpace::Handshake => &mut self.handshake_pn_info,
            PacketNumberSpace::Application => &mut self.application_pn_info,
        };
        pn_info.next_pn += 1;
        Ok((
            pn_info.next_pn,
            truncate_pn(pn_info.next_pn, pn_info.largest_local_ack)?,
        ))''', '''        let pn_info = self.borrow_mut_pn_info(pn_space);
        let pn = pn_info.next_pn + 1;
        pn_info.next_pn = pn;
        let truncated = truncate_pn(pn, pn_info.largest_local_ack)?;
        Ok((pn, truncated))'''))
r('c-trunc-shift', ('connection.rs', '''            let byte_len = bit_len / 8 + if bit_len % 8 == 0 { 0 } else { 1 };''', '''            let byte_len = (bit_len + 7) / 8;'''))
r('e-const', ('version.rs', '''    pub fn get_version_field_val(&self) -> u32 {
        match self {
            Self::V1 => 1u32,
        }
    }''', '''    const V1_FIELD: u32 = 0x0000_0001;
    pub fn get_version_field_val(&self) -> u32 {
        match *self {
            Version::V1 => Self::V1_FIELD,
        }
    }'''))
r('e-use-self', ('error.rs', '''Error::''', '''Self::'''))

# --- larger edits: the replaced text is taken from the tree between two markers (end exclusive)
def span(f, a, b):
    t = open('/repo/src/' + f).read(); i = t.index(a); return t[i:t.index(b, i)]
r('m-floor-log2', ('utils.rs', span('utils.rs', '    impl FloorLog2 for u8 {', '}\n\nuse self::prelude::*;'), '''    macro_rules! impl_floor_log2 {
        ($($t:ty),* $(,)?) => {
            $(
                impl FloorLog2 for $t {
                    fn floor_log2(&self) -> error::Result<usize> {
                        if *self == 0 {
                            return Err(Error::InternalError("no bits set"));
                        }
                        let mut rv = 0usize;
                        let mut tp = *self;
                        while tp > 0 {
                            rv += 1;
                            tp >>= 1;
                        }
                        Ok(rv)
                    }
                }
            )*
        };
    }
    impl_floor_log2!(u8, u16, u32, u64);
'''))
r('m-decode', ('utils.rs', span('utils.rs', '    impl DecodeFromBytes for u16 {', '    impl FromDatagram for u8 {'), '''    macro_rules! decode_be {
        ($t:ty, $msg:literal) => {
            impl DecodeFromBytes for $t {
                type Output = Self;
                fn decode_from_bytes(data: &[u8]) -> error::Result<(Self::Output, usize)> {
                    let size = std::mem::size_of::<Self>();
                    if data.len() < size {
                        return Err(Error::InternalError($msg));
                    }
                    let mut result: Self = 0;
                    for i in 0..size {
                        result <<= 8;
                        result |= Self::from(data[i]);
                    }
                    Ok((result, size))
                }
            }
        };
    }
    decode_be!(u16, "not enough bytes for u16");
    decode_be!(u32, "not enough bytes for u32");
    decode_be!(u64, "not enough bytes for u64");
    decode_be!(u128, "not enough bytes for u128");

'''))
r('m-datagram', ('utils.rs', span('utils.rs', '    impl FromDatagram for u8 {', '    impl FromDatagram for U160 {'), '''    macro_rules! impl_from_datagram {
        ($($t:ident),+) => { $(
            impl FromDatagram for $t {
                type Output = Self;
                fn from_datagram<T>(datagram: &mut T) -> error::Result<Self::Output>
                where
                    T: Iterator<Item = error::Result<u8>>,
                {
                    let size = std::mem::size_of::<Self>();
                    let mut bytes = [0u8; (Self::BITS / 8) as usize];
                    for i in 0..size {
                        bytes[i] = datagram
                            .next()
                            .unwrap_or(Err(Error::InternalError(concat!("not enough bytes for ", stringify!($t)))))?;
                    }
                    let (rv, _) = Self::decode_from_bytes(&bytes)?;
                    Ok(rv)
                }
            }
        )+ };
    }
    impl_from_datagram!(u8, u16, u32, u64, u128);

'''))
r('m-next-byte', ('utils.rs', '''        result += u64::from(
            stream
                .next()
                .unwrap_or(Err(Error::InternalError("not enough bytes for varint")))?,
        );''', '''        result += u64::from(next_or!(stream, "not enough bytes for varint"));'''), ('utils.rs', '''pub fn decode_var_int(''', '''macro_rules! next_or {
    ($s:expr, $m:expr) => {
        $s.next().unwrap_or(Err(Error::InternalError($m)))?
    };
}

pub fn decode_var_int('''))
r('u-shared-be', ('utils.rs', span('utils.rs', 'pub fn var_u160_from_stream', 'pub fn var_bytes_from_stream'), '''pub fn var_u160_from_stream<T>(stream: &mut T, n_bytes: u8) -> error::Result<U160>
where
    T: Iterator<Item = error::Result<u8>>,
{
    let mut value = U160::zero();
    for _ in 0..n_bytes {
        let byte = stream
            .next()
            .unwrap_or(Err(Error::InternalError("not enough bytes for var160")))?;
        value.idx0 = (value.idx0 << 8) | (value.idx1 >> 120) as u32;
        value.idx1 = (value.idx1 << 8) | u128::from(byte);
    }
    Ok(value)
}

'''))
r('u-u160-delegate', ('utils.rs', span('utils.rs', '            let size = (u32::BITS / 8 + u128::BITS / 8) as usize;', '    impl FloorLog2 for u8'), '''            super::var_u160_from_stream(datagram, 20)
        }
    }

'''))
r('u-var-bytes-take', ('utils.rs', span('utils.rs', '    let mut rv = Vec::<u8>::new();\n    for i in 0..n_bytes {', 'pub fn all_bytes_from_stream'), '''    let rv = stream.take(n_bytes).collect::<Result<Vec<u8>, Error>>()?;
    if rv.len() < n_bytes {
        return Err(Error::InternalError("not enough bytes for var_bytes"));
    }
    Ok(rv)
}

'''))
r('u-var-bytes-map', ('utils.rs', span('utils.rs', '    let mut rv = Vec::<u8>::new();\n    for i in 0..n_bytes {', 'pub fn all_bytes_from_stream'), '''    (0..n_bytes)
        .map(|_| {
            stream
                .next()
                .unwrap_or(Err(Error::InternalError("not enough bytes for var_bytes")))
        })
        .collect()
}

'''))
r('u-all-collect', ('utils.rs', '''    let mut rv = Vec::<u8>::new();
    while let Some(x) = stream.next() {
        rv.push(x?);
    }
    Ok(rv)''', '''    stream.collect()'''))
r('u-all-for', ('utils.rs', '''    while let Some(x) = stream.next() {
        rv.push(x?);
    }
    Ok(rv)''', '''    for x in stream {
        rv.push(x?);
    }
    Ok(rv)'''))
r('u-to-var-skip', ('utils.rs', '''        let mut bytes = self.to_bytes();
        bytes.rotate_left(Self::BITS / 8 - len);
        bytes[..len].to_vec()''', '''        let bytes = self.to_bytes();
        bytes[(bytes.len() - len)..].to_vec()'''))
r('u-to-var-skip2', ('utils.rs', '''        let mut bytes = self.to_bytes();
        bytes.rotate_left(Self::BITS / 8 - len);
        bytes[..len].to_vec()''', '''        self.to_bytes()[Self::BITS / 8 - len..].to_vec()'''))
r('u-dcid-from', ('utils.rs', '''    let dcid = u64::from_datagram(stream)?;
    let idx1 = u128::from(dcid);
    let idx0 = 0u32;
    Ok(U160 { idx0, idx1 })''', '''    u64::from_datagram(stream).map(U160::from)'''))
r('u-dcid-from2', ('utils.rs', '''    let dcid = u64::from_datagram(stream)?;
    let idx1 = u128::from(dcid);
    let idx0 = 0u32;
    Ok(U160 { idx0, idx1 })''', '''    Ok(U160::from(u64::from_datagram(stream)?))'''))
r('u-default', ('utils.rs', '#[derive(Debug, Copy, Clone, PartialEq, Eq, Hash)]\npub struct U160', '#[derive(Debug, Default, Copy, Clone, PartialEq, Eq, Hash)]\npub struct U160'), ('utils.rs', '''        Self {
            idx0: 0u32,
            idx1: 0u128,
        }
''', '''        Self::default()
'''))
_open = '''        let frame_data = connection.decrypt_remote_payload(
            Self::PN_SPACE,
            &protected_frame_data[..],
            &associated_data[..],
            packet_number,
        )?;
        let packet_payload = deserialize_frames(&mut utils::make_result_stream(&frame_data[..]))?;
'''
r('p-open-frames', ('packet.rs', _open, '''        let packet_payload = open_frames(
            connection,
            Self::PN_SPACE,
            &protected_frame_data,
            &associated_data,
            packet_number,
        )?;
'''), ('packet.rs', '''impl LongPacketHeader {
''', '''/// decrypts a packet payload and parses the frames in it
fn open_frames(
    connection: &Connection,
    pn_space: PacketNumberSpace,
    protected: &[u8],
    associated_data: &[u8],
    packet_number: u64,
) -> error::Result<Vec<Frame>> {
    let frame_data =
        connection.decrypt_remote_payload(pn_space, protected, associated_data, packet_number)?;
    let frames = deserialize_frames(&mut utils::make_result_stream(&frame_data))?;
    Ok(frames)
}

impl LongPacketHeader {
'''))
_unp = '''        let mut offset_stream = stream.clone();
        let mut packet_number_bytes_protected = var_bytes_from_stream(&mut offset_stream, 4)?;
        let mask = connection.get_remote_hp_mask(Self::PN_SPACE, &mut offset_stream)?;
        header.remove_protection(&mask);
        let packet_number_length = header.packet_number_length()?;
        xor_pn_protection(&mut packet_number_bytes_protected, &mask)?;
        let packet_number_bytes = packet_number_bytes_protected[..packet_number_length].to_vec();
        // the payload starts directly after the packet number
        var_bytes_from_stream(stream, packet_number_length)?;
        let packet_number =
            connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_bytes[..])?;
        let protected_frame_length'''
r('p-unprotect-shared', ('connection.rs', '#[derive(Debug)]\npub enum PacketNumberSpace', '#[derive(Debug, Clone, Copy)]\npub enum PacketNumberSpace'), ('packet.rs', _unp, '''        let (packet_number, packet_number_bytes) =
            unprotect_long(stream, &mut header, connection, Self::PN_SPACE)?;
        let packet_number_length = packet_number_bytes.len();
        let protected_frame_length'''), ('packet.rs', '''impl LongPacketHeader {
''', '''fn unprotect_long<T>(
    stream: &mut T,
    header: &mut LongPacketHeader,
    connection: &Connection,
    pn_space: PacketNumberSpace,
) -> error::Result<(u64, Vec<u8>)>
where
    T: Iterator<Item = error::Result<u8>> + Clone,
{
    let mut offset_stream = stream.clone();
    let mut pn_bytes = var_bytes_from_stream(&mut offset_stream, 4)?;
    let mask = connection.get_remote_hp_mask(pn_space, &mut offset_stream)?;
    header.remove_protection(&mask);
    let pn_length = header.packet_number_length()?;
    xor_pn_protection(&mut pn_bytes, &mask)?;
    pn_bytes.truncate(pn_length);
    // the payload starts directly after the packet number
    var_bytes_from_stream(stream, pn_length)?;
    let packet_number = connection.reconstruct_remote_pn(pn_space, &pn_bytes)?;
    Ok((packet_number, pn_bytes))
}

impl LongPacketHeader {
'''))
r('p-vn-ids', ('packet.rs', span('packet.rs', '''        let (
            version_negotiation,
            destination_connection_id_length,''', '''        let mut rv = Self {
            header_byte,
            version,'''), '''        let destination_connection_id_length = u8::from_datagram(stream)?;
        if !is_version_negotiation && destination_connection_id_length > 20 {
            return Err(Error::InternalError(
                "invalid destination connection id length",
            ));
        }
        let dcid_bytes = var_bytes_from_stream(stream, destination_connection_id_length as usize)?;
        // datagrams are routed by this id, ids that do not fit cannot be registered
        let destination_connection_id = if destination_connection_id_length <= 20 {
            var_u160_from_stream(
                &mut utils::make_result_stream(&dcid_bytes),
                destination_connection_id_length,
            )?
        } else {
            U160::zero()
        };
        let source_connection_id_length = u8::from_datagram(stream)?;
        if !is_version_negotiation && source_connection_id_length > 20 {
            return Err(Error::InternalError("invalid source connection id length"));
        }
        let scid_bytes = var_bytes_from_stream(stream, source_connection_id_length as usize)?;
        let (source_connection_id, version_negotiation) = if is_version_negotiation {
            (
                U160::zero(),
                Some(VersionNegotiationHeaderUnionFields {
                    destination_connection_id: dcid_bytes,
                    source_connection_id: scid_bytes,
                }),
            )
        } else {
            (
                var_u160_from_stream(
                    &mut utils::make_result_stream(&scid_bytes),
                    source_connection_id_length,
                )?,
                None,
            )
        };
'''))
r('p-to-bytes-vec', ('packet.rs', '''        [
            &[self.header_byte][..],
            &self.version.to_be_bytes(),
            &[self.destination_connection_id_length][..],
            &destination_connection_id[..],
            &[self.source_connection_id_length][..],
            &source_connection_id[..],
        ]
        .concat()''', '''        let mut bytes = vec![self.header_byte];
        bytes.extend_from_slice(&self.version.to_be_bytes());
        bytes.push(self.destination_connection_id_length);
        bytes.extend_from_slice(&destination_connection_id);
        bytes.push(self.source_connection_id_length);
        bytes.extend_from_slice(&source_connection_id);
        bytes'''))
r('p-to-bytes-if-let', ('packet.rs', '''match self.version_negotiation {
            Some(ref x) => (
                x.destination_connection_id.clone(),
                x.source_connection_id.clone(),
            ),
            None => (
                self.destination_connection_id
                    .to_var_bytes(self.destination_connection_id_length as usize),
                self.source_connection_id
                    .to_var_bytes(self.source_connection_id_length as usize),
            ),
        };''', '''if let Some(vn) = &self.version_negotiation {
            (
                vn.destination_connection_id.to_vec(),
                vn.source_connection_id.to_vec(),
            )
        } else {
            let dcid_len = usize::from(self.destination_connection_id_length);
            let scid_len = usize::from(self.source_connection_id_length);
            (
                self.destination_connection_id.to_var_bytes(dcid_len),
                self.source_connection_id.to_var_bytes(scid_len),
            )
        };'''))
r('p-dispatch-flat', ('packet.rs', span('packet.rs', '    match header {\n        PacketHeader::Short(_) => {', 'pub fn decode_packets'), '''    Ok(match header.get_packet_type() {
        PacketType::OneRtt | PacketType::StatelessReset => {
            Packet::OneRtt(PacketOneRtt::from_stream(stream, connection)?)
        }
        PacketType::Initial => Packet::Initial(PacketInitial::from_stream(stream, connection)?),
        PacketType::ZeroRtt => Packet::ZeroRtt(PacketZeroRtt::from_stream(stream, connection)?),
        PacketType::Handshake => {
            Packet::Handshake(PacketHandshake::from_stream(stream, connection)?)
        }
        PacketType::Retry => Packet::Retry(PacketRetry::from_stream(stream)?),
        PacketType::VersionNegotiation => {
            Packet::VersionNegotiation(PacketVersionNegotiation::from_stream(stream)?)
        }
    })
}

'''))
r('p-new-shared', ('packet.rs', '''        let pn_length = packet_number_bytes.len() as u8;
        if !(0 < pn_length && pn_length <= 4) {
            return Err(Error::InternalError("invalid truncated_pn"));
        }
        let header_byte = Self::new_header_byte(pn_length - 1);''', '''        let header_byte = Self::new_header_byte(pn_length_bits(&packet_number_bytes)?);'''), ('packet.rs', '''impl LongPacketHeader {
''', '''fn pn_length_bits(pn_bytes: &[u8]) -> error::Result<u8> {
    match pn_bytes.len() {
        n @ 1..=4 => Ok(n as u8 - 1),
        _ => Err(Error::InternalError("invalid truncated_pn")),
    }
}

impl LongPacketHeader {
'''))
r('p-vn-exact', ('packet.rs', '''        let mut supported_versions_results = supported_versions_bytes
            .chunks(4)
            .map(|x| u32::from_datagram(&mut utils::make_result_stream(x)));
        let mut supported_versions = Vec::<u32>::with_capacity(supported_versions_results.len());
        while let Some(x) = supported_versions_results.next() {
            supported_versions.push(x?);
        }''', '''        let supported_versions = supported_versions_bytes
            .chunks_exact(4)
            .map(|x| u32::from_be_bytes([x[0], x[1], x[2], x[3]]))
            .collect::<Vec<_>>();'''))
r('p-hdr-mask-const', ('packet.rs', '''            self.header_byte ^= mask[0] & 0x0f;
            self.is_protected = false;''', '''            self.header_byte ^= mask[0] & Self::PROTECTED_BITS;
            self.is_protected = false;'''), ('packet.rs', '''            self.header_byte ^= mask[0] & 0x0f;
            self.is_protected = true;''', '''            self.header_byte ^= mask[0] & Self::PROTECTED_BITS;
            self.is_protected = true;'''), ('packet.rs', '    const HEADER_BITS: u8 = 0xc0;', '    const HEADER_BITS: u8 = 0xc0;\n    const PROTECTED_BITS: u8 = 0x0f;'))
r('p-hdr-toggle', ('packet.rs', '''    pub fn remove_protection(&mut self, mask: &[u8; 5]) {
        if self.is_protected {
            self.header_byte ^= mask[0] & 0x0f;
            self.is_protected = false;
        }
    }

    pub fn add_protection(&mut self, mask: &[u8; 5]) {
        if !self.is_protected {
            self.header_byte ^= mask[0] & 0x0f;
            self.is_protected = true;
        }
    }''', '''    fn set_protection(&mut self, mask: &[u8; 5], on: bool) {
        if self.is_protected == on {
            return;
        }
        self.header_byte ^= mask[0] & 0x0f;
        self.is_protected = on;
    }

    pub fn remove_protection(&mut self, mask: &[u8; 5]) {
        self.set_protection(mask, false);
    }

    pub fn add_protection(&mut self, mask: &[u8; 5]) {
        self.set_protection(mask, true);
    }'''))
r('p-short-guard', ('packet.rs', '''        if self.is_protected {
            Err(Error::InternalError(
                "attempting to read protected spin bit",
            ))
        } else {
            Ok(self.header_byte & 0x20 == 0x20)
        }''', '''        self.readable("attempting to read protected spin bit")?;
        Ok(self.header_byte & 0x20 != 0)'''), ('packet.rs', '''        if self.is_protected {
            Err(Error::InternalError(
                "attempting to read protected reserved bits",
            ))
        } else {
            Ok((self.header_byte & 0x18) >> 3)
        }''', '''        self.readable("attempting to read protected reserved bits")?;
        Ok((self.header_byte >> 3) & 0x03)'''), ('packet.rs', '''    pub fn spin_bit(''', '''    fn readable(&self, msg: &'static str) -> error::Result<()> {
        if self.is_protected {
            return Err(Error::InternalError(msg));
        }
        Ok(())
    }
    pub fn spin_bit('''))
r('c-space-methods', ('connection.rs', '''        pn_info.next_pn += 1;
        Ok((
            pn_info.next_pn,
            truncate_pn(pn_info.next_pn, pn_info.largest_local_ack)?,
        ))''', '''        pn_info.take_next()'''), ('connection.rs', '''    pub fn new() -> Self {
        Self {
            largest_remote_ack: None,''', '''    fn take_next(&mut self) -> error::Result<(u64, Vec<u8>)> {
        self.next_pn += 1;
        let truncated = truncate_pn(self.next_pn, self.largest_local_ack)?;
        Ok((self.next_pn, truncated))
    }
    pub fn new() -> Self {
        Self {
            largest_remote_ack: None,'''))
r('c-recon-sub', ('connection.rs', '''        let mut tp_pn_bytes = [0u8; 4];
        tp_pn_bytes[(4 - pn_length)..].clone_from_slice(pn_lsb);
        let tp_pn = u32::from_be_bytes(tp_pn_bytes);''', '''        let tp_pn = pn_lsb.iter().fold(0u32, |acc, b| (acc << 8) | u32::from(*b));'''))
r('c-recon-match', ('connection.rs', '''        let rv = if let Some(x) = largest_ack {
            // see rfc-editor.org/rfc/rfc9000#section-a.3
            let expected_pn = x + 1;''', '''        let expected_pn = match largest_ack {
            Some(x) => x + 1,
            None => return Ok(u64::from(tp_pn)),
        };
        let rv = {'''), ('connection.rs', '''                candidate_pn
            }
        } else {
            u64::from(tp_pn)
        };
        Ok(rv)''', '''                candidate_pn
            }
        };
        Ok(rv)'''))
r('c-new-inline', ('connection.rs', '''        let server_secrets =
            quictls::Secrets::from_initial(true, &dcid.to_var_bytes(dcid_len)[..], &version)?;
        let client_secrets =
            quictls::Secrets::from_initial(false, &dcid.to_var_bytes(dcid_len)[..], &version)?;
        let (local_tls_secrets, remote_tls_secrets) = if is_server {
            (server_secrets, client_secrets)
        } else {
            (client_secrets, server_secrets)
        };
        let mut initial_pn_info = PacketNumberSpaceInfo::new();
        initial_pn_info.local_tls_secrets = Some(local_tls_secrets);
        initial_pn_info.remote_tls_secrets = Some(remote_tls_secrets);''', '''        let id_bytes = dcid.to_var_bytes(dcid_len);
        let initial_pn_info = PacketNumberSpaceInfo {
            local_tls_secrets: Some(quictls::Secrets::from_initial(is_server, &id_bytes, &version)?),
            remote_tls_secrets: Some(quictls::Secrets::from_initial(
                !is_server, &id_bytes, &version,
            )?),
            ..PacketNumberSpaceInfo::new()
        };'''))
r('r-header-dcid', ('routing.rs', '''        let connection_id = match route_header {
            PacketHeader::Short(ref x) => x.destination_connection_id,
            PacketHeader::Long(ref x) => x.destination_connection_id,
        };
        match self.streams.read().unwrap().get(&connection_id) {
            Some(x) => x
                .sender
                .send(datagram)
                .map_err(|_| Error::InternalError("error sending data to channel")),
            None => Err(Error::InternalError("missing connection")),
        }''', '''        let streams = self.streams.read().unwrap();
        if let Some(stream) = streams.get(&route_header.get_destination_id()) {
            stream
                .sender
                .send(datagram)
                .map_err(|_| Error::InternalError("error sending data to channel"))?;
            return Ok(());
        }
        Err(Error::InternalError("missing connection"))'''))
r('r-recv-flat', ('routing.rs', span('routing.rs', '            let ret_datagram = {', '    fn route_datagram'), '''            let header = next_header_from_stream(&mut utils::make_result_stream(&datagram.data));
            let is_new = match &header {
                Ok(x) => {
                    matches!(x.get_packet_type(), PacketType::Initial)
                        && !self
                            .streams
                            .read()
                            .unwrap()
                            .contains_key(&x.get_destination_id())
                }
                Err(x) => {
                    eprintln!("{:?}", x);
                    false
                }
            };
            if is_new {
                return Ok(datagram);
            }
            if let Err(x) = self.route_datagram(datagram) {
                eprintln!("{:?}", x);
            }
        }
    }
'''))

# ---- fifth batch: quictls, frames, transport parameters
CS = 'quictls/cipher_suite.rs'
r('q-expand-helper', (CS, '''        let mut rv = vec![0u8; self.key_len];
        (self.hkdf_expand_label)(secret, key_label, b"", &mut rv)?;
        Ok(rv)''', '''        self.expand(secret, key_label, self.key_len)'''),
  (CS, '''        let mut rv = vec![0u8; 16];
        (self.hkdf_expand_label)(secret, hp_label, b"", &mut rv)?;
        Ok(rv)''', '''        self.expand(secret, hp_label, 16)'''),
  (CS, '''                let mut rv = vec![0u8; x];
                (self.hkdf_expand_label)(secret, iv_label, b"", &mut rv)?;
                Some(rv)''', '''                Some(self.expand(secret, iv_label, x)?)'''),
  (CS, '''    pub fn get_protected_payload_len(&self''', '''    fn expand(&self, secret: &[u8], label: &[u8], len: usize) -> error::Result<Vec<u8>> {
        let mut okm = vec![0u8; len];
        (self.hkdf_expand_label)(secret, label, b"", &mut okm)?;
        Ok(okm)
    }
    pub fn get_protected_payload_len(&self'''))
r('q-iv-early', (CS, '''        Ok(match self.iv_len {
            Some(x) => {
                let mut rv = vec![0u8; x];
                (self.hkdf_expand_label)(secret, iv_label, b"", &mut rv)?;
                Some(rv)
            }
            None => None,
        })''', '''        let iv_len = match self.iv_len {
            Some(x) => x,
            None => return Ok(None),
        };
        let mut iv = vec![0u8; iv_len];
        (self.hkdf_expand_label)(secret, iv_label, b"", &mut iv)?;
        Ok(Some(iv))'''))
r('q-iv-transpose', (CS, '''        Ok(match self.iv_len {
            Some(x) => {
                let mut rv = vec![0u8; x];
                (self.hkdf_expand_label)(secret, iv_label, b"", &mut rv)?;
                Some(rv)
            }
            None => None,
        })''', '''        self.iv_len
            .map(|x| {
                let mut rv = vec![0u8; x];
                (self.hkdf_expand_label)(secret, iv_label, b"", &mut rv)?;
                Ok(rv)
            })
            .transpose()'''))
r('q-label-direct', (CS, '''    let length_bytes = (length as u16).to_be_bytes();
    let label_len_bytes = (new_label.len() as u8).to_be_bytes();
    let context_len_bytes = (context.len() as u8).to_be_bytes();
    let rv = [
        length_bytes.to_vec(),
        label_len_bytes.to_vec(),
        new_label.to_vec(),
        context_len_bytes.to_vec(),
        context.to_vec(),
    ];
    Ok(rv)''', '''    Ok([
        (length as u16).to_be_bytes().to_vec(),
        vec![new_label.len() as u8],
        new_label,
        vec![context.len() as u8],
        context.to_vec(),
    ])'''))
r('q-label-try-from', (CS, '''    if length > u16::MAX as usize {
        return Err(Error::InternalError("length does not fit in u16"));
    }
''', '''    let length = u16::try_from(length)
        .map_err(|_| Error::InternalError("length does not fit in u16"))?;
'''), (CS, '''(length as u16).to_be_bytes()''', '''length.to_be_bytes()'''))
r('q-mask-index', (CS, '''    let mut rv = [0u8; 5];
    rv.clone_from_slice(&result[..5]);
    rv''', '''    [result[0], result[1], result[2], result[3], result[4]]'''))
r('q-mask-try-into', (CS, '''    let mut rv = [0u8; 5];
    rv.clone_from_slice(&result[..5]);
    rv''', '''    result[..5].try_into().unwrap()'''))
r('q-require-helper', (CS, '''    let iv = iv.ok_or(Error::InternalError(
        "aes_128_gcm requires an initialsation vector",
    ))?;
    let associated_data =
        associated_data.ok_or(Error::InternalError("aes_128_gcm requires associated data"))?;
    internal_encrypt_aes''', '''    let (iv, associated_data) = require_gcm_inputs(iv, associated_data)?;
    internal_encrypt_aes'''), (CS, '''    let iv = iv.ok_or(Error::InternalError(
        "aes_128_gcm requires an initialsation vector",
    ))?;
    let associated_data =
        associated_data.ok_or(Error::InternalError("aes_128_gcm requires associated data"))?;
    internal_decrypt_aes''', '''    let (iv, associated_data) = require_gcm_inputs(iv, associated_data)?;
    internal_decrypt_aes'''), (CS, '''fn encrypt_aes_128_gcm(''', '''fn require_gcm_inputs<'a>(
    iv: Option<&'a [u8]>,
    associated_data: Option<&'a [u8]>,
) -> error::Result<(&'a [u8], &'a [u8])> {
    let iv = iv.ok_or(Error::InternalError(
        "aes_128_gcm requires an initialsation vector",
    ))?;
    let associated_data =
        associated_data.ok_or(Error::InternalError("aes_128_gcm requires associated data"))?;
    Ok((iv, associated_data))
}

fn encrypt_aes_128_gcm('''))
r('q-tag-split', (CS, '''    if payload.len() < AES_128_GCM_TAG_LEN {
        return Err(Error::InternalError("payload too short for aes_128_gcm tag"));
    }
    let tag = &payload[(payload.len() - AES_128_GCM_TAG_LEN)..];
    let cipher_text = &payload[..(payload.len() - 16)];
''', '''    let text_len = payload
        .len()
        .checked_sub(AES_128_GCM_TAG_LEN)
        .ok_or(Error::InternalError("payload too short for aes_128_gcm tag"))?;
    let (cipher_text, tag) = payload.split_at(text_len);
'''))
r('q-match-both', (CS, '''    let iv = iv.ok_or(Error::InternalError(
        "aes_128_gcm requires an initialsation vector",
    ))?;
    let associated_data =
        associated_data.ok_or(Error::InternalError("aes_128_gcm requires associated data"))?;
    internal_encrypt_aes_128_gcm(key, iv, associated_data, payload)''', '''    match (iv, associated_data) {
        (Some(iv), Some(associated_data)) => {
            internal_encrypt_aes_128_gcm(key, iv, associated_data, payload)
        }
        (None, _) => Err(Error::InternalError(
            "aes_128_gcm requires an initialsation vector",
        )),
        (_, None) => Err(Error::InternalError("aes_128_gcm requires associated data")),
    }'''))
r('f-then-transpose', ('frame.rs', '''        let ecn_counts = if type_byte & 0x1 == 1 {
            Some(EcnCounts::from_datagram(datagram)?)
        } else {
            None
        };
        Ok(Self {
            largest_ack''', '''        let ecn_counts = match type_byte & 0x1 {
            1 => Some(EcnCounts::from_datagram(datagram)?),
            _ => None,
        };
        Ok(Self {
            largest_ack'''))
r('f-ack-extend', ('frame.rs', '''        let mut tp_ack_range_bytes = Vec::<Vec<u8>>::new();
        let mut ack_range_iter = self.ack_range.iter();
        while let Some(x) = ack_range_iter.next() {
            tp_ack_range_bytes.push(x.to_bytes()?);
        }
        let ack_range_bytes = tp_ack_range_bytes.into_iter().flatten().collect::<Vec<_>>();
''', '''        let mut ack_range_bytes = Vec::new();
        for range in &self.ack_range {
            ack_range_bytes.extend(range.to_bytes()?);
        }
'''))
r('f-crypto-extend', ('frame.rs', '''        Ok([
            &[0x06][..],
            &utils::encode_var_int(self.offset)?[..],
            &utils::encode_var_int(self.length)?[..],
            &self.crypto_data[..],
        ]
        .concat())''', '''        let mut bytes = Vec::with_capacity(17 + self.crypto_data.len());
        bytes.push(0x06);
        bytes.extend_from_slice(&utils::encode_var_int(self.offset)?);
        bytes.extend_from_slice(&utils::encode_var_int(self.length)?);
        bytes.extend_from_slice(&self.crypto_data);
        Ok(bytes)'''))
r('f-literal-direct', ('frame.rs', '''        let stream_id = var_int_from_stream(datagram)?;
        let application_protocol_error_code = var_int_from_stream(datagram)?;
        let final_size = var_int_from_stream(datagram)?;
        Ok(Self {
            stream_id,
            application_protocol_error_code,
            final_size,
        })''', '''        Ok(Self {
            stream_id: var_int_from_stream(datagram)?,
            application_protocol_error_code: var_int_from_stream(datagram)?,
            final_size: var_int_from_stream(datagram)?,
        })'''))
r('f-varints-helper', ('frame.rs', '''        Ok([
            &[0x04u8][..],
            &utils::encode_var_int(self.stream_id)?[..],
            &utils::encode_var_int(self.application_protocol_error_code)?[..],
            &utils::encode_var_int(self.final_size)?[..],
        ]
        .concat())''', '''        encode_fields(
            0x04,
            &[
                self.stream_id,
                self.application_protocol_error_code,
                self.final_size,
            ],
        )'''), ('frame.rs', '''        Ok([
            &[0x05u8],
            &utils::encode_var_int(self.stream_id)?[..],
            &utils::encode_var_int(self.application_protocol_error_code)?[..],
        ]
        .concat())''', '''        encode_fields(0x05, &[self.stream_id, self.application_protocol_error_code])'''),
 ('frame.rs', '''#[derive(Debug)]
pub struct FrameResetStream {''', '''fn encode_fields(type_byte: u8, fields: &[u64]) -> error::Result<Vec<u8>> {
    let mut bytes = vec![type_byte];
    for field in fields {
        bytes.extend(utils::encode_var_int(*field)?);
    }
    Ok(bytes)
}

#[derive(Debug)]
pub struct FrameResetStream {'''))
r('f-pair-helper', ('frame.rs', '''        let stream_id = var_int_from_stream(datagram)?;
        let maximum_stream_data = var_int_from_stream(datagram)?;
        Ok(Self {
            stream_id,
            maximum_stream_data,
        })
    }
    fn to_bytes(&self) -> error::Result<Vec<u8>> {
        Ok([
            &[0x11u8]''', '''        let (stream_id, maximum_stream_data) = var_int_pair(datagram)?;
        Ok(Self {
            stream_id,
            maximum_stream_data,
        })
    }
    fn to_bytes(&self) -> error::Result<Vec<u8>> {
        Ok([
            &[0x11u8]'''), ('frame.rs', '''#[derive(Debug)]
pub struct FrameMaxStreamData {''', '''fn var_int_pair<T>(datagram: &mut T) -> error::Result<(u64, u64)>
where
    T: Iterator<Item = error::Result<u8>>,
{
    Ok((var_int_from_stream(datagram)?, var_int_from_stream(datagram)?))
}

#[derive(Debug)]
pub struct FrameMaxStreamData {'''))
r('f-len-prefixed', ('frame.rs', '''        let offset = var_int_from_stream(datagram)?;
        let length = var_int_from_stream(datagram)?;
        let crypto_data = var_bytes_from_stream(datagram, length as usize)?;
''', '''        let offset = var_int_from_stream(datagram)?;
        let (length, crypto_data) = length_prefixed_bytes(datagram)?;
'''), ('frame.rs', '''        let token_length = var_int_from_stream(datagram)?;
        let token = var_bytes_from_stream(datagram, token_length as usize)?;
''', '''        let (token_length, token) = length_prefixed_bytes(datagram)?;
'''), ('frame.rs', '''#[derive(Debug)]
pub struct FrameCrypto {''', '''fn length_prefixed_bytes<T>(datagram: &mut T) -> error::Result<(u64, Vec<u8>)>
where
    T: Iterator<Item = error::Result<u8>>,
{
    let length = var_int_from_stream(datagram)?;
    let data = var_bytes_from_stream(datagram, length as usize)?;
    Ok((length, data))
}

#[derive(Debug)]
pub struct FrameCrypto {'''))
r('f-impl-iter', ('frame.rs', '''    fn from_datagram<T>(datagram: &mut T) -> error::Result<Self>
    where
        T: Iterator<Item = error::Result<u8>>,
    {
        let maximum_data = var_int_from_stream(datagram)?;
        Ok(Self { maximum_data })''', '''    fn from_datagram(datagram: &mut impl Iterator<Item = error::Result<u8>>) -> error::Result<Self> {
        Ok(Self {
            maximum_data: var_int_from_stream(datagram)?,
        })'''))
r('f-ok-match', ('frame.rs', '''        0x06 => Ok(Frame::Crypto(FrameCrypto::from_datagram(datagram)?)),
        0x07 => Ok(Frame::NewToken(FrameNewToken::from_datagram(datagram)?)),''', '''        0x06 => FrameCrypto::from_datagram(datagram).map(Frame::Crypto),
        0x07 => FrameNewToken::from_datagram(datagram).map(Frame::NewToken),'''))
r('f-type-consts', ('frame.rs', '''        0x06 => Ok(Frame::Crypto(''', '''        CRYPTO_TYPE => Ok(Frame::Crypto('''), ('frame.rs', '''            &[0x06][..],''', '''            &[CRYPTO_TYPE][..],'''), ('frame.rs', '''#[derive(Debug)]
pub struct FrameCrypto {''', '''const CRYPTO_TYPE: u8 = 0x06;

#[derive(Debug)]
pub struct FrameCrypto {'''))
r('f-type-try-from', ('frame.rs', '''    let type_byte = var_int_from_stream(datagram)?;
    if type_byte > u64::from(u8::MAX) {
        return Err(Error::InternalError("Invalid type byte"));
    }
    let type_byte = type_byte as u8;
    match''', '''    let type_byte = u8::try_from(var_int_from_stream(datagram)?)
        .map_err(|_| Error::InternalError("Invalid type byte"))?;
    match'''))
r('f-type-match-u64', ('frame.rs', '''    if type_byte > u64::from(u8::MAX) {
        return Err(Error::InternalError("Invalid type byte"));
    }
    let type_byte = type_byte as u8;
    match''', '''    let type_byte = match type_byte {
        0x00..=0x1e => type_byte as u8,
        _ => return Err(Error::InternalError("Invalid type byte")),
    };
    match'''))
r('t-value-helper', ('transport_parameters.rs', '''    pub fn serialize(&self) -> error::Result<Vec<u8>> {
        let identifier_bytes = utils::encode_var_int(self.identifier_val())?;
        let value_bytes = match self {''', '''    fn value_bytes(&self) -> error::Result<Vec<u8>> {
        Ok(match self {'''), ('transport_parameters.rs', '''            Self::RetrySourceConnectionId(x) => x.clone(),
        };
''', '''            Self::RetrySourceConnectionId(x) => x.clone(),
        })
    }
    pub fn serialize(&self) -> error::Result<Vec<u8>> {
        let identifier_bytes = utils::encode_var_int(self.identifier_val())?;
        let value_bytes = self.value_bytes()?;
'''))
r('t-preferred-extend', ('transport_parameters.rs', '''        [
            &self.ipv4_address.octets()[..],
            &self.ipv4_port.to_be_bytes()[..],
            &self.ipv6_address.octets()[..],
            &self.ipv6_port.to_be_bytes()[..],
            &[self.connection_id.len() as u8][..],
            &self.connection_id[..],
            &self.stateless_reset_token[..],
        ]
        .concat()''', '''        let mut bytes = Vec::new();
        bytes.extend_from_slice(&self.ipv4_address.octets());
        bytes.extend_from_slice(&self.ipv4_port.to_be_bytes());
        bytes.extend_from_slice(&self.ipv6_address.octets());
        bytes.extend_from_slice(&self.ipv6_port.to_be_bytes());
        bytes.push(self.connection_id.len() as u8);
        bytes.extend_from_slice(&self.connection_id);
        bytes.extend_from_slice(&self.stateless_reset_token);
        bytes'''))
r('e-code-table', ('error.rs', '''            Error::NoViablePath => 0x10,
        }''', '''            Error::NoViablePath => NO_VIABLE_PATH,
        }'''), ('error.rs', '''#[derive(Debug, Clone)]
pub enum Error''', '''const NO_VIABLE_PATH: u8 = 0x10;

#[derive(Debug, Clone)]
pub enum Error'''))
r('v-const', ('version.rs', '''            Self::V1 => 1u32,''', '''            Version::V1 => VERSION_1,'''), ('version.rs', '''#[derive(Debug)]
pub enum Version''', '''const VERSION_1: u32 = 0x0000_0001;

#[derive(Debug)]
pub enum Version'''))
r('s-from-secret-literal', ('quictls/secrets.rs', '''        let hp = cipher_suite.get_hp_secret(secret, HEADER_PROTECTION_LABEL)?;
        let iv = cipher_suite.get_iv_secret(secret, INITIAL_VECTOR_LABEL)?;
        let key = cipher_suite.get_key(secret, KEY_LABEL)?;
        Ok(Self {
            cipher_suite,
            hp,
            iv,
            key,
        })''', '''        Ok(Self {
            cipher_suite,
            hp: cipher_suite.get_hp_secret(secret, HEADER_PROTECTION_LABEL)?,
            iv: cipher_suite.get_iv_secret(secret, INITIAL_VECTOR_LABEL)?,
            key: cipher_suite.get_key(secret, KEY_LABEL)?,
        })'''))
r('s-mask-inline', ('quictls/secrets.rs', '''        let sample = utils::var_bytes_from_stream(sample_stream, self.cipher_suite.sample_len)?;
        (self.cipher_suite.hp_mask)(&self.hp[..], &sample[..])''', '''        let suite = self.cipher_suite;
        let sample = utils::var_bytes_from_stream(sample_stream, suite.sample_len)?;
        (suite.hp_mask)(&self.hp, &sample)'''))
r('s-initial-side-fn', ('quictls/secrets.rs', '''        let label = if server {
            SERVER_INITIAL_SECRET_LABEL
        } else {
            CLIENT_INITIAL_SECRET_LABEL
        };
''', '''        let label = initial_label(server);
'''), ('quictls/secrets.rs', '''#[derive(Debug)]
pub struct Secrets {''', '''fn initial_label(server: bool) -> &'static [u8] {
    if server {
        SERVER_INITIAL_SECRET_LABEL
    } else {
        CLIENT_INITIAL_SECRET_LABEL
    }
}

#[derive(Debug)]
pub struct Secrets {'''))

# ---- sixth batch: combinators and slices
r('c-scid-map', ('connection.rs', '''        let (a, b) = self.scid.ok_or(Error::InternalError("scid not set"))?;
        Ok((a, b as u8))''', '''        self.scid
            .map(|(id, len)| (id, len as u8))
            .ok_or(Error::InternalError("scid not set"))'''))
r('c-tail-map', ('connection.rs', '''        let tls_secrets = self.borrow_local_tls_secrets(pn_space)?;
        Ok(tls_secrets.get_protected_payload_len(payload_len))''', '''        self.borrow_local_tls_secrets(pn_space)
            .map(|secrets| secrets.get_protected_payload_len(payload_len))'''))
r('c-and-then', ('connection.rs', '''        let tls_secrets = self.borrow_remote_tls_secrets(pn_space)?;
        tls_secrets.get_header_protection_mask(sample_stream)''', '''        self.borrow_remote_tls_secrets(pn_space)
            .and_then(|secrets| secrets.get_header_protection_mask(sample_stream))'''))
r('c-question-dot', ('connection.rs', '''        let tls_secrets = self.borrow_remote_tls_secrets(pn_space)?;
        tls_secrets
            .decrypt_payload(payload, Some(associated_data), packet_number)''', '''        self.borrow_remote_tls_secrets(pn_space)?
            .decrypt_payload(payload, Some(associated_data), packet_number)'''))
r('c-map-or', ('connection.rs', '''        let rv = if let Some(x) = largest_ack {
            // see rfc-editor.org/rfc/rfc9000#section-a.3
            let expected_pn = x + 1;''', '''        let rv = largest_ack.map_or(u64::from(tp_pn), |x| {
            // see rfc-editor.org/rfc/rfc9000#section-a.3
            let expected_pn = x + 1;'''), ('connection.rs', '''                candidate_pn
            }
        } else {
            u64::from(tp_pn)
        };
        Ok(rv)''', '''                candidate_pn
            }
        });
        Ok(rv)'''))
r('c-ok-or-else', ('connection.rs', '''        pn_info.local_tls_secrets.as_ref().ok_or(Error::InternalError(
            "attempted to retrieve unset local tls secrets",
        ))''', '''        pn_info.local_tls_secrets.as_ref().ok_or_else(|| {
            Error::InternalError("attempted to retrieve unset local tls secrets")
        })'''))
r('c-match-secrets', ('connection.rs', '''        pn_info.remote_tls_secrets.as_ref().ok_or(Error::InternalError(
            "attempted to retrieve unset remote tls secrets",
        ))''', '''        match &pn_info.remote_tls_secrets {
            Some(secrets) => Ok(secrets),
            None => Err(Error::InternalError(
                "attempted to retrieve unset remote tls secrets",
            )),
        }'''))
r('c-struct-update', ('connection.rs', '''        let mut initial_pn_info = PacketNumberSpaceInfo::new();
        initial_pn_info.local_tls_secrets = Some(local_tls_secrets);
        initial_pn_info.remote_tls_secrets = Some(remote_tls_secrets);
''', '''        let initial_pn_info = PacketNumberSpaceInfo {
            local_tls_secrets: Some(local_tls_secrets),
            remote_tls_secrets: Some(remote_tls_secrets),
            ..PacketNumberSpaceInfo::new()
        };
'''))
r('c-pn-accum', ('connection.rs', '''        let mut tp_pn_bytes = [0u8; 4];
        tp_pn_bytes[(4 - pn_length)..].clone_from_slice(pn_lsb);
        let tp_pn = u32::from_be_bytes(tp_pn_bytes);
''', '''        let mut tp_pn_bytes = [0u8; 4];
        for (i, byte) in pn_lsb.iter().enumerate() {
            tp_pn_bytes[4 - pn_length + i] = *byte;
        }
        let tp_pn = u32::from_be_bytes(tp_pn_bytes);
'''))
r('u-var-slice', ('utils.rs', '''        let mut bytes = self.to_bytes();
        bytes.rotate_left(Self::BITS / 8 - len);
        bytes[..len].to_vec()''', '''        let bytes = self.to_bytes();
        bytes[bytes.len() - len..].to_vec()'''))
r('u-decode-bytes-get', ('utils.rs', '''    if data.len() < length {
        return Err(Error::InternalError("not enough bytes to decode"));
    }
    let rv = data[..length].to_vec();
    Ok((rv, length))''', '''    match data.get(..length) {
        Some(bytes) => Ok((bytes.to_vec(), length)),
        None => Err(Error::InternalError("not enough bytes to decode")),
    }'''))
r('u-decode-first', ('utils.rs', '''            if data.len() < 1 {
                return Err(Error::InternalError("not enough bytes for u8"));
            }
            Ok((data[0], 1))''', '''            match data.first() {
                Some(byte) => Ok((*byte, 1)),
                None => Err(Error::InternalError("not enough bytes for u8")),
            }'''))
r('u-decode-iter-ref', ('utils.rs', '''                return Err(Error::InternalError("not enough bytes for u16"));
            }
            let mut result: Self = 0;
            for i in 0..size {
                result <<= 8;
                result |= Self::from(data[i]);
            }''', '''                return Err(Error::InternalError("not enough bytes for u16"));
            }
            let mut result: Self = 0;
            for &byte in &data[..size] {
                result = (result << 8) | Self::from(byte);
            }'''))
r('u-decode-be', ('utils.rs', '''                return Err(Error::InternalError("not enough bytes for u32"));
            }
            let mut result: Self = 0;
            for i in 0..size {
                result <<= 8;
                result |= Self::from(data[i]);
            }
            Ok((result, size))''', '''                return Err(Error::InternalError("not enough bytes for u32"));
            }
            Ok((Self::from_be_bytes(data[..size].try_into().unwrap()), size))'''))
r('u-varint-split-first', ('utils.rs', '''    if data.len() == 0 {
        return Err(Error::InternalError("missing first byte for varint"));
    }
    let n_shifts = (1usize << usize::from(data[0] >> 6)) - 1;
    if data.len() < n_shifts + 1 {
        return Err(Error::InternalError("not enough bytes for varint"));
    }
    let mut result = u64::from(data[0] & 0x3f);
    for i in 0..n_shifts {
        result <<= 8;
        result += u64::from(data[i + 1]);
    }
    Ok((result, n_shifts + 1))''', '''    let (&first, rest) = data
        .split_first()
        .ok_or(Error::InternalError("missing first byte for varint"))?;
    let n_shifts = (1usize << usize::from(first >> 6)) - 1;
    if rest.len() < n_shifts {
        return Err(Error::InternalError("not enough bytes for varint"));
    }
    let mut result = u64::from(first & 0x3f);
    for i in 0..n_shifts {
        result <<= 8;
        result += u64::from(rest[i]);
    }
    Ok((result, n_shifts + 1))'''))
r('u-varint-len-match', ('utils.rs', '''    let n_shifts = (1usize << usize::from(data[0] >> 6)) - 1;
    if data''', '''    let n_shifts: usize = match data[0] >> 6 {
        0 => 0,
        1 => 1,
        2 => 3,
        _ => 7,
    };
    if data'''))
r('u-u32-fold', ('utils.rs', '''    let mut rv = 0u32;
    for _ in 0..n_bytes {
        rv <<= 8;
        rv |= u32::from(
            stream
                .next()
                .unwrap_or(Err(Error::InternalError("not enough bytes for var_u32")))?,
        );
    }
    Ok(rv)''', '''    let mut rv = 0u32;
    for _ in 0..n_bytes {
        let byte = match stream.next() {
            Some(byte) => byte?,
            None => return Err(Error::InternalError("not enough bytes for var_u32")),
        };
        rv = rv << 8 | u32::from(byte);
    }
    Ok(rv)'''))
r('p-vn-chunks-exact', ('packet.rs', '''        let mut supported_versions_results = supported_versions_bytes
            .chunks(4)
            .map(|x| u32::from_datagram(&mut utils::make_result_stream(x)));
        let mut supported_versions = Vec::<u32>::with_capacity(supported_versions_results.len());
        while let Some(x) = supported_versions_results.next() {
            supported_versions.push(x?);
        }
''', '''        let supported_versions = supported_versions_bytes
            .chunks(4)
            .map(|x| u32::from_datagram(&mut utils::make_result_stream(x)))
            .collect::<error::Result<Vec<u32>>>()?;
'''))
r('p-vn-be', ('packet.rs', '''        let mut supported_versions_results = supported_versions_bytes
            .chunks(4)
            .map(|x| u32::from_datagram(&mut utils::make_result_stream(x)));
        let mut supported_versions = Vec::<u32>::with_capacity(supported_versions_results.len());
        while let Some(x) = supported_versions_results.next() {
            supported_versions.push(x?);
        }
''', '''        let mut supported_versions = Vec::<u32>::new();
        for chunk in supported_versions_bytes.chunks(4) {
            supported_versions.push(u32::from_be_bytes([chunk[0], chunk[1], chunk[2], chunk[3]]));
        }
'''))
r('p-token-unwrap-or', ('packet.rs', '''        let token = if let Some(x) = token { x } else { vec![] };
''', '''        let token = token.unwrap_or_default();
'''))
r('p-pn-range', ('packet.rs', '''        if !(0 < pn_length && pn_length <= 4) {
            return Err(Error::InternalError("invalid truncated_pn"));
        }
        let header_byte = Self::new_header_byte(pn_length - 1);
        let header = LongPacketHeader::from_connection(connection, header_byte)?;
        let token''', '''        if !(1..=4).contains(&pn_length) {
            return Err(Error::InternalError("invalid truncated_pn"));
        }
        let header_byte = Self::new_header_byte(pn_length - 1);
        let header = LongPacketHeader::from_connection(connection, header_byte)?;
        let token'''))
r('p-type-shift', ('packet.rs', '''                let type_bits = (self.header_byte & ((1 << 6) - 1)) >> 4;
                match type_bits {''', '''                match (self.header_byte >> 4) & 0x03 {'''))
r('p-guard-protection', ('packet.rs', '''        if self.is_protected {
            self.header_byte ^= mask[0] & 0x0f;
            self.is_protected = false;
        }''', '''        if !self.is_protected {
            return;
        }
        self.is_protected = false;
        self.header_byte ^= mask[0] & 0x0f;'''))
r('p-protected-type', ('packet.rs', '''        let is_protected = match rv.packet_type() {
            PacketType::Retry => false,
            PacketType::VersionNegotiation => false,
            _ => true,
        };
        rv.is_protected = is_protected;
        Ok(rv)''', '''        if let PacketType::Retry | PacketType::VersionNegotiation = rv.packet_type() {
            rv.is_protected = false;
        }
        Ok(rv)'''))
r('p-zero-ad', ('packet.rs', '''            &packet_number_bytes[..packet_number_length],
        ]''', '''            &packet_number_bytes[..],
        ]'''))
r('p-len-match', ('packet.rs', '''        let protected_frame_length = (length as usize)
            .checked_sub(packet_number_length)
            .ok_or(Error::InternalError("packet length too short"))?;
        let protected_frame_data = var_bytes_from_stream(stream, protected_frame_length)?;
        // create associated data
        let associated_data = [
            &header.to_bytes()[..],
            &token_length''', '''        let protected_frame_length = match (length as usize).checked_sub(packet_number_length) {
            Some(x) => x,
            None => return Err(Error::InternalError("packet length too short")),
        };
        let protected_frame_data = var_bytes_from_stream(stream, protected_frame_length)?;
        // create associated data
        let associated_data = [
            &header.to_bytes()[..],
            &token_length'''))
r('p-truncate-pn', ('packet.rs', '''        let packet_number_bytes = packet_number_bytes_protected[..packet_number_length].to_vec();
        // the payload starts directly after the packet number
        var_bytes_from_stream(stream, packet_number_length)?;
        let packet_number =
            connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_bytes[..])?;
        let protected_frame_length = (length as usize)
            .checked_sub(packet_number_length)
            .ok_or(Error::InternalError("packet length too short"))?;
        let protected_frame_data = var_bytes_from_stream(stream, protected_frame_length)?;
        // create associated data
        let associated_data = [
            &header.to_bytes()[..],
            &token_length''', '''        let mut packet_number_bytes = packet_number_bytes_protected;
        packet_number_bytes.truncate(packet_number_length);
        // the payload starts directly after the packet number
        var_bytes_from_stream(stream, packet_number_length)?;
        let packet_number =
            connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_bytes[..])?;
        let protected_frame_length = (length as usize)
            .checked_sub(packet_number_length)
            .ok_or(Error::InternalError("packet length too short"))?;
        let protected_frame_data = var_bytes_from_stream(stream, protected_frame_length)?;
        // create associated data
        let associated_data = [
            &header.to_bytes()[..],
            &token_length'''))
r('r-remove-guard', ('routing.rs', '''        self.streams.write().unwrap().remove(&cid);''', '''        let mut streams = self.streams.write().unwrap();
        streams.remove(&cid);'''))
r('r-if-let-ok', ('routing.rs', '''                    Err(x) => {
                        // TODO implement proper error handling
                        eprintln!("{:?}", x);
                        false
                    }''', '''                    Err(_) => false,'''))
r('r-new-map', ('routing.rs', '''                        match packet_type {
                            PacketType::Initial => {
                                !self.streams.read().unwrap().contains_key(&dcid)
                            }
                            // TODO ZeroRtt packets should be buffered from here
                            _ => false,
                        }''', '''                        // TODO ZeroRtt packets should be buffered from here
                        matches!(packet_type, PacketType::Initial)
                            && self.streams.read().unwrap().get(&dcid).is_none()'''))
r('r-unwrap-or-else', ('routing.rs', '''                if let Err(x) = self.route_datagram(datagram) {
                    eprintln!("{:?}", x);
                }''', '''                self.route_datagram(datagram)
                    .unwrap_or_else(|x| eprintln!("{:?}", x));'''))
r('r-route-and-then', ('routing.rs', '''        match self.streams.read().unwrap().get(&connection_id) {
            Some(x) => x
                .sender
                .send(datagram)
                .map_err(|_| Error::InternalError("error sending data to channel")),
            None => Err(Error::InternalError("missing connection")),
        }''', '''        self.streams
            .read()
            .unwrap()
            .get(&connection_id)
            .ok_or(Error::InternalError("missing connection"))
            .and_then(|x| {
                x.sender
                    .send(datagram)
                    .map_err(|_| Error::InternalError("error sending data to channel"))
            })'''))
