// child of crate::interface
#![allow(dead_code, unused_imports)]
use super::*;
use crate::vrf::{self, *};
use crate::vcheck;

pub fn trial(p: &str, g: &mut G) -> V { match p { "C16" => c16(g), _ => Ok(()) } }

fn c16(g: &mut G) -> V {
    if !g.one_in(10) { return Ok(()); }
    let s = QuicSocket::bind("127.0.0.1:0").map_err(|e| format!("bind failed: {:?}", e))?;
    crate::routing::vharness::close_by_drop(g, &s.socket, &|k| { drop(QuicStream { socket: s.socket.clone(), connection_id: k }); })
}
