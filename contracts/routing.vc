@fn routing::InternalQuicStream::from_connection -> r C16
ensures r.connection.v == connection, r.sender.open, r.sender.sent@.len() == 0,

@clone routing::InternalQuicSocket
ensures r == *self,

@fn routing::InternalQuicSocket::bind -> r sender C16
ensures r is Ok ==> r->Ok_0.streams.v.m@ == Map::<U160, InternalQuicStream>::empty() && r->Ok_0.socket.v.got@.len() == 0 && !r->Ok_0.log_traffic.v,

@fn routing::InternalQuicSocket::connect -> r sender C16
ensures true,
@todo

@fn routing::InternalQuicSocket::accept -> r C16 C12
ensures
    r is Err ==> same_conns(old(self).streams.v.m@, final(self).streams.v.m@) && final(self).socket.v.errs@ == old(self).socket.v.errs@ + 1,
    r is Ok ==> accepted(*old(self), *final(self), r->Ok_0),
@attr
#[verifier::exec_allows_no_decreases_clause]
@pre
hide(p_header); hide(deliv); hide(since); hide(all_nameable); hide(delivered); hide(routable); hide(step); hide(run);
broadcast use {group_bytes, group_cat, group_packet, group_routing, group_accept};
@loop 0
invariant_except_break
    __ret is None,
    server_for(stream, self.socket.v.got@.last()),
    same_conns(old(self).streams.v.m@, self.streams.v.m@),
ensures
    __ret is Some,
    accepted(*old(self), *self, __ret->0),
@todo
proof { assert(__ret == Some(rv)); }

@fn routing::InternalQuicSocket::recv_datagram -> r C16
ensures
    final(self).streams == old(self).streams, final(self).log_traffic == old(self).log_traffic,
    r is Ok ==> final(self).socket.v.got@ == old(self).socket.v.got@.push(r->Ok_0.data@) && final(self).socket.v.errs@ == old(self).socket.v.errs@,
    r is Err ==> final(self).socket.v.got@ == old(self).socket.v.got@ && final(self).socket.v.errs@ == old(self).socket.v.errs@ + 1,
@pre
broadcast use {group_bytes, group_cat};

@fn routing::InternalQuicSocket::route_datagram -> r C16
ensures
    final(self).socket == old(self).socket, final(self).log_traffic == old(self).log_traffic,
    nameable(datagram.data@) ==> (r is Ok <==> routable(old(self).streams.v.m@, datagram.data@)),
    nameable(datagram.data@) && r is Ok ==> final(self).streams.v.m@ == delivered(old(self).streams.v.m@, datagram),
    r is Err ==> final(self).streams.v.m@ == old(self).streams.v.m@,
    same_conns(old(self).streams.v.m@, final(self).streams.v.m@),
@pre
hide(p_header);
broadcast use {group_bytes, group_cat, group_routing};

@fn routing::InternalQuicSocket::set_log_traffic -> r C16
ensures final(self).socket == old(self).socket, final(self).streams == old(self).streams, final(self).log_traffic.v == log_traffic_flag,

@fn routing::InternalQuicSocket::drop_connection -> r C16
ensures final(self).socket == old(self).socket, final(self).log_traffic == old(self).log_traffic,
    final(self).streams.v.m@ =~= old(self).streams.v.m@.remove(cid),

@fn routing::InternalQuicSocket::packets_from_datagram -> r C16
requires forall|k: U160| #[trigger] old(self).streams.v.m@.contains_key(k) ==> conn_wf(old(self).streams.v.m@[k].connection.v),
ensures
    final(self).socket == old(self).socket, final(self).log_traffic == old(self).log_traffic, final(self).streams.v.m@ == old(self).streams.v.m@,
    nameable(datagram.data@) ==> match opened(old(self).streams.v.m@, datagram.data@) {
        Some(v) => r is Ok && packets_v(r->Ok_0@) == v,
        None => r is Err,
    },
@pre
hide(p_header); hide(p_packets); hide(packets_v); hide(conn_wf);
broadcast use {group_cat, group_routing};

@fn routing::InternalQuicSocket::recv_new_initial_datagram -> r C16
ensures
    final(self).log_traffic == old(self).log_traffic,
    same_conns(old(self).streams.v.m@, final(self).streams.v.m@),
    old(self).socket.v.got@.len() <= final(self).socket.v.got@.len(),
    final(self).socket.v.errs@ == old(self).socket.v.errs@ + if r is Err { 1nat } else { 0nat },
    r is Ok ==> ds_of(*old(self), *final(self)).len() > 0 && ds_of(*old(self), *final(self)).last() == r->Ok_0.data@,
    r is Ok ==> is_initial(r->Ok_0.data@),
    r is Ok && nameable(r->Ok_0.data@) ==> !final(self).streams.v.m@.contains_key(named(r->Ok_0.data@)->0),
    r is Ok && all_nameable(ds_of(*old(self), *final(self)).drop_last()) ==>
        deliv(final(self).streams.v.m@) == run(deliv(old(self).streams.v.m@), ds_of(*old(self), *final(self)).drop_last()),
    r is Err && all_nameable(ds_of(*old(self), *final(self))) ==> deliv(final(self).streams.v.m@) == run(deliv(old(self).streams.v.m@), ds_of(*old(self), *final(self))),
@attr
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)]
@pre
hide(p_header); hide(deliv); hide(since); hide(all_nameable); hide(delivered); hide(routable); hide(step);
broadcast use {group_bytes, group_cat, group_routing};
proof { reveal_with_fuel(run, 1); }
@loop 0
invariant
    self.log_traffic == old(self).log_traffic,
    same_conns(old(self).streams.v.m@, self.streams.v.m@),
    old(self).socket.v.got@.len() <= self.socket.v.got@.len(),
    self.socket.v.errs@ == old(self).socket.v.errs@,
    all_nameable(ds_of(*old(self), *self)) ==>
        deliv(self.streams.v.m@) == run(deliv(old(self).streams.v.m@), ds_of(*old(self), *self)),

@fn interface::<QuicStreamasDrop>::drop -> r C16
ensures
    final(self).connection_id == old(self).connection_id,
    final(self).socket.socket == old(self).socket.socket, final(self).socket.log_traffic == old(self).socket.log_traffic,
    final(self).socket.streams.v.m@ == old(self).socket.streams.v.m@.remove(old(self).connection_id),

@fn interface::QuicSocket::bind -> r sender C16
ensures r is Ok ==> r->Ok_0.socket.streams.v.m@ == Map::<U160, crate::routing::InternalQuicStream>::empty(),

@fn interface::QuicSocket::connect -> r sender C16
ensures r is Ok ==> r->Ok_0.socket == final(self).socket,

@fn interface::QuicSocket::accept -> r C16
ensures
    r is Err ==> same_conns(old(self).socket.streams.v.m@, final(self).socket.streams.v.m@),
    r is Ok ==> r->Ok_0.socket == final(self).socket && accepted(old(self).socket, final(self).socket, r->Ok_0.connection_id),

@fn interface::QuicSocket::set_log_traffic -> r sender C16
ensures final(self).socket == old(self).socket,
