// child of crate::error
#![allow(dead_code, unused_imports)]
use super::*;
use crate::vrf::{self, *};
use crate::vcheck;

pub fn trial(p: &str, g: &mut G) -> V { match p { "C17" => c17(g), _ => Ok(()) } }

fn c17(g: &mut G) -> V {
    use crate::version::Version;
    let all = [
        (Error::NoError, 0u8), (Error::InternalError(if g.bool() { "" } else { "some longer text" }), 1), (Error::ConnectionRefused, 2), (Error::FlowControlError, 3), (Error::StreamLimitError, 4),
        (Error::StreamStateError, 5), (Error::FinalSizeError, 6), (Error::FrameEncodingError, 7), (Error::TransportParameterError, 8), (Error::ConnectionIdLimitError, 9),
        (Error::ProtocolViolation, 0xa), (Error::InvalidToken, 0xb), (Error::ApplicationError, 0xc), (Error::CryptoBufferExceeded, 0xd), (Error::KeyUpdateError, 0xe),
        (Error::AeadLimitReached, 0xf), (Error::NoViablePath, 0x10),
    ];
    for (e, c) in all.iter() { vcheck!(e.to_error_byte() == *c, "{:?} has code {:#x}, expected {:#x}", e, e.to_error_byte(), c); }
    vcheck!(Version::V1.get_version_field_val() == 1, "version field of V1 is {}", Version::V1.get_version_field_val());
    vcheck!(Version::V1.get_kdf_initial_salt() == &vrf::SALT_V1[..], "initial salt of V1 is {}", vrf::hex(Version::V1.get_kdf_initial_salt()));
    Ok(())
}
