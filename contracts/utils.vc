@drop tests test module
@drop utils::calloc_box_buffer unsafe allocation helper, not called anywhere
@drop utils::alloc_box_buffer unsafe allocation helper, not called anywhere

@fn utils::decode_var_int -> r C01
ensures match p_varint(data@) {
    Some((v, rest)) => r is Ok && r->Ok_0.0 == v && r->Ok_0.1 == vlen(data@[0]) && data@.skip(r->Ok_0.1 as int) == rest,
    None => r is Err,
},
@attr
#[verifier::loop_isolation(false)]
@pre
broadcast use group_bytes;
@loop 0
invariant n_shifts + 1 == vlen(data@[0]), n_shifts + 1 <= data@.len(), result == vacc(data@, IT.index() + 1),

@fn utils::decode_bytes -> r C02
ensures match p_bytes(data@, length as nat) {
    Some((v, rest)) => r is Ok && r->Ok_0.0@ == v && r->Ok_0.1 == length,
    None => r is Err,
},
@pre
broadcast use group_bytes;

@fn utils::var_int_with_bytes_from_stream -> r C01
ensures match p_varint(old(stream).bytes()) {
    Some((v, rest)) => r is Ok && r->Ok_0.0 == v && r->Ok_0.1@ == old(stream).bytes().take(vlen(old(stream).bytes()[0]) as int) && final(stream).bytes() == rest,
    None => r is Err,
},
@attr
#[verifier::loop_isolation(false)]
@pre
broadcast use group_bytes;
let ghost s0 = stream.bytes();
@loop 0
invariant s0.len() > 0, n_shifts + 1 == vlen(s0[0]), IT.index() + 1 <= s0.len(), stream.bytes() == s0.skip(IT.index() + 1), result == vacc(s0, IT.index() + 1),
    bytes@ =~= s0.take(IT.index() + 1),

@fn utils::var_int_from_stream -> r C01
ensures match p_varint(old(stream).bytes()) {
    Some((v, rest)) => r is Ok && r->Ok_0 == v && final(stream).bytes() == rest,
    None => r is Err,
},
@attr
#[verifier::loop_isolation(false)]
@pre
broadcast use group_bytes;
let ghost s0 = stream.bytes();
@loop 0
invariant s0.len() > 0, n_shifts + 1 == vlen(s0[0]), IT.index() + 1 <= s0.len(), stream.bytes() == s0.skip(IT.index() + 1), result == vacc(s0, IT.index() + 1),

@fn utils::var_u32_from_stream -> r C02
requires n_bytes <= 4,
ensures match p_int(old(stream).bytes(), n_bytes as nat) {
    Some((v, rest)) => r is Ok && r->Ok_0 == v && final(stream).bytes() == rest,
    None => r is Err,
},
@attr
#[verifier::loop_isolation(false)]
@pre
broadcast use group_bytes;
let ghost s0 = stream.bytes();
@loop 0
invariant IT.index() <= s0.len(), stream.bytes() == s0.skip(IT.index() as int), rv == bev(s0, IT.index() as int),

@fn utils::var_u160_from_stream -> r C02
requires n_bytes <= 20,
ensures match p_int(old(stream).bytes(), n_bytes as nat) {
    Some((v, rest)) => r is Ok && u160_nat(r->Ok_0.idx0, r->Ok_0.idx1) == v && final(stream).bytes() == rest,
    None => r is Err,
},
@attr
#[verifier::loop_isolation(false)]
@pre
broadcast use {group_bytes, group_u160};
let ghost s0 = stream.bytes();
@loop 0
invariant IT.index() <= s0.len(), stream.bytes() == s0.skip(IT.index() as int), u160_nat(idx0, idx1) == bev(s0, IT.index() as int),

@fn utils::prelude::<U160asFromDatagram>::from_datagram -> r C02
ensures match p_int(old(datagram).bytes(), 20) {
    Some((v, rest)) => r is Ok && u160_nat(r->Ok_0.idx0, r->Ok_0.idx1) == v && final(datagram).bytes() == rest,
    None => r is Err,
},
@attr
#[verifier::loop_isolation(false)]
@pre
broadcast use {group_bytes, group_u160};
let ghost s0 = datagram.bytes();
@loop 0
invariant IT.index() <= s0.len(), datagram.bytes() == s0.skip(IT.index() as int), u160_nat(idx0, idx1) == bev(s0, IT.index() as int),

@fn utils::var_bytes_from_stream -> r C02
ensures match p_bytes(old(stream).bytes(), n_bytes as nat) {
    Some((v, rest)) => r is Ok && r->Ok_0@ == v && final(stream).bytes() == rest,
    None => r is Err,
},
@attr
#[verifier::loop_isolation(false)]
@pre
broadcast use group_bytes;
let ghost s0 = stream.bytes();
@loop 0
invariant IT.index() <= s0.len(), stream.bytes() == s0.skip(IT.index() as int), rv@ =~= s0.take(IT.index() as int),

@fn utils::all_bytes_from_stream -> r C02
ensures r is Ok, r->Ok_0@ == old(stream).bytes(), final(stream).bytes() =~= old(stream).bytes().skip(old(stream).bytes().len() as int),
@attr
#[verifier::loop_isolation(false)]
@pre
broadcast use group_bytes;
let ghost s0 = stream.bytes();
@loop 0
invariant rv@ + stream.bytes() =~= s0,
decreases stream.bytes().len(),

@fn utils::fixed_len_dcid_from_stream -> r C02
ensures match p_int(old(stream).bytes(), 8) {
    Some((v, rest)) => r is Ok && u160_nat(r->Ok_0.idx0, r->Ok_0.idx1) == v && final(stream).bytes() == rest,
    None => r is Err,
},
@pre
broadcast use group_bytes;

@fn utils::make_result_stream -> r C02
ensures r.bytes() == bytes@,

@fn utils::encode_var_int -> r C01
ensures r is Ok <==> varint_ok(x as nat), r is Ok ==> r->Ok_0@ == e_varint(x as nat),
@pre
broadcast use {group_bytes, lemma_be_bytes_suffix_b};
proof { lemma_encode_consts(x); }

@fn utils::<U160asFrom<u64>>::from -> r C02
ensures u160_nat(r.idx0, r.idx1) == val,

@fn utils::U160::to_bytes -> r C02
ensures r@ =~= be_bytes(u160_nat(self.idx0, self.idx1), 20),
@attr
#[verifier::loop_isolation(false)]
@pre
broadcast use {group_bytes, group_u160, lemma_u160_split};
let ghost v0 = u160_nat(self.idx0, self.idx1);
@loop 0
invariant u160_nat(tp_high, tp_low) == sh8(v0, IT.index() as nat), rv@.skip(20 - IT.index()) == be_bytes(v0, IT.index() as nat),

@fn utils::U160::to_var_bytes -> r C02
requires len <= 20,
ensures r@ == be_bytes(u160_nat(self.idx0, self.idx1), len as nat),
@pre
broadcast use {group_bytes, lemma_be_bytes_suffix_b};
proof { lemma_be_bytes_suffix(u160_nat(self.idx0, self.idx1), 20, len as nat); }
@post
proof { assert(r@ =~= be_bytes(u160_nat(self.idx0, self.idx1), len as nat)); }

@fn utils::U160::zero -> r C02
ensures u160_nat(r.idx0, r.idx1) == 0,

@fn utils::prelude::<u8asDecodeFromBytes>::decode_from_bytes -> r C02
ensures match p_int(data@, 1) {
    Some((v, rest)) => r is Ok && r->Ok_0.0 == v && r->Ok_0.1 == 1,
    None => r is Err,
},
@attr
#[verifier::loop_isolation(false)]
@pre
broadcast use group_bytes;
proof { reveal_with_fuel(bev, 2); }

@fn utils::prelude::<u8asFromDatagram>::from_datagram -> r C02
ensures match p_int(old(datagram).bytes(), 1) {
    Some((v, rest)) => r is Ok && r->Ok_0 == v && final(datagram).bytes() == rest,
    None => r is Err,
},
@attr
#[verifier::loop_isolation(false)]
@pre
broadcast use {group_bytes, lemma_bev_ext_b};
let ghost s0 = datagram.bytes();
@loop 0
invariant IT.index() <= s0.len(), datagram.bytes() == s0.skip(IT.index() as int), forall|j: int| 0 <= j < IT.index() ==> #[trigger] bytes@[j] == s0[j],

@fn utils::prelude::<u16asDecodeFromBytes>::decode_from_bytes -> r C02
ensures match p_int(data@, 2) {
    Some((v, rest)) => r is Ok && r->Ok_0.0 == v && r->Ok_0.1 == 2,
    None => r is Err,
},
@attr
#[verifier::loop_isolation(false)]
@pre
broadcast use group_bytes;
proof { reveal_with_fuel(bev, 2); }
@loop 0
invariant size == 2, data@.len() >= size, result == bev(data@, IT.index() as int),

@fn utils::prelude::<u16asFromDatagram>::from_datagram -> r C02
ensures match p_int(old(datagram).bytes(), 2) {
    Some((v, rest)) => r is Ok && r->Ok_0 == v && final(datagram).bytes() == rest,
    None => r is Err,
},
@attr
#[verifier::loop_isolation(false)]
@pre
broadcast use {group_bytes, lemma_bev_ext_b};
let ghost s0 = datagram.bytes();
@loop 0
invariant IT.index() <= s0.len(), datagram.bytes() == s0.skip(IT.index() as int), forall|j: int| 0 <= j < IT.index() ==> #[trigger] bytes@[j] == s0[j],

@fn utils::prelude::<u32asDecodeFromBytes>::decode_from_bytes -> r C02
ensures match p_int(data@, 4) {
    Some((v, rest)) => r is Ok && r->Ok_0.0 == v && r->Ok_0.1 == 4,
    None => r is Err,
},
@attr
#[verifier::loop_isolation(false)]
@pre
broadcast use group_bytes;
proof { reveal_with_fuel(bev, 2); }
@loop 0
invariant size == 4, data@.len() >= size, result == bev(data@, IT.index() as int),

@fn utils::prelude::<u32asFromDatagram>::from_datagram -> r C02
ensures match p_int(old(datagram).bytes(), 4) {
    Some((v, rest)) => r is Ok && r->Ok_0 == v && final(datagram).bytes() == rest,
    None => r is Err,
},
@attr
#[verifier::loop_isolation(false)]
@pre
broadcast use {group_bytes, lemma_bev_ext_b};
let ghost s0 = datagram.bytes();
@loop 0
invariant IT.index() <= s0.len(), datagram.bytes() == s0.skip(IT.index() as int), forall|j: int| 0 <= j < IT.index() ==> #[trigger] bytes@[j] == s0[j],

@fn utils::prelude::<u64asDecodeFromBytes>::decode_from_bytes -> r C02
ensures match p_int(data@, 8) {
    Some((v, rest)) => r is Ok && r->Ok_0.0 == v && r->Ok_0.1 == 8,
    None => r is Err,
},
@attr
#[verifier::loop_isolation(false)]
@pre
broadcast use group_bytes;
proof { reveal_with_fuel(bev, 2); }
@loop 0
invariant size == 8, data@.len() >= size, result == bev(data@, IT.index() as int),

@fn utils::prelude::<u64asFromDatagram>::from_datagram -> r C02
ensures match p_int(old(datagram).bytes(), 8) {
    Some((v, rest)) => r is Ok && r->Ok_0 == v && final(datagram).bytes() == rest,
    None => r is Err,
},
@attr
#[verifier::loop_isolation(false)]
@pre
broadcast use {group_bytes, lemma_bev_ext_b};
let ghost s0 = datagram.bytes();
@loop 0
invariant IT.index() <= s0.len(), datagram.bytes() == s0.skip(IT.index() as int), forall|j: int| 0 <= j < IT.index() ==> #[trigger] bytes@[j] == s0[j],

@fn utils::prelude::<u128asDecodeFromBytes>::decode_from_bytes -> r C02
ensures match p_int(data@, 16) {
    Some((v, rest)) => r is Ok && r->Ok_0.0 == v && r->Ok_0.1 == 16,
    None => r is Err,
},
@attr
#[verifier::loop_isolation(false)]
@pre
broadcast use group_bytes;
proof { reveal_with_fuel(bev, 2); }
@loop 0
invariant size == 16, data@.len() >= size, result == bev(data@, IT.index() as int),

@fn utils::prelude::<u128asFromDatagram>::from_datagram -> r C02
ensures match p_int(old(datagram).bytes(), 16) {
    Some((v, rest)) => r is Ok && r->Ok_0 == v && final(datagram).bytes() == rest,
    None => r is Err,
},
@attr
#[verifier::loop_isolation(false)]
@pre
broadcast use {group_bytes, lemma_bev_ext_b};
let ghost s0 = datagram.bytes();
@loop 0
invariant IT.index() <= s0.len(), datagram.bytes() == s0.skip(IT.index() as int), forall|j: int| 0 <= j < IT.index() ==> #[trigger] bytes@[j] == s0[j],

@fn utils::prelude::<u8asFloorLog2>::floor_log2 -> r C08
ensures r is Ok <==> *self != 0, r is Ok ==> r->Ok_0 == bitlen(*self as nat),
@attr
#[verifier::loop_isolation(false)]
@pre
broadcast use {group_shr1, group_lz};
proof { lemma_bitlen_bound(*self as nat); }
@loop 0
invariant rv + bitlen(tp as nat) == bitlen(*self as nat),
decreases tp,

@fn utils::prelude::<u16asFloorLog2>::floor_log2 -> r C08
ensures r is Ok <==> *self != 0, r is Ok ==> r->Ok_0 == bitlen(*self as nat),
@attr
#[verifier::loop_isolation(false)]
@pre
broadcast use {group_shr1, group_lz};
proof { lemma_bitlen_bound(*self as nat); }
@loop 0
invariant rv + bitlen(tp as nat) == bitlen(*self as nat),
decreases tp,

@fn utils::prelude::<u32asFloorLog2>::floor_log2 -> r C08
ensures r is Ok <==> *self != 0, r is Ok ==> r->Ok_0 == bitlen(*self as nat),
@attr
#[verifier::loop_isolation(false)]
@pre
broadcast use {group_shr1, group_lz};
proof { lemma_bitlen_bound(*self as nat); }
@loop 0
invariant rv + bitlen(tp as nat) == bitlen(*self as nat),
decreases tp,

@fn utils::prelude::<u64asFloorLog2>::floor_log2 -> r C08
ensures r is Ok <==> *self != 0, r is Ok ==> r->Ok_0 == bitlen(*self as nat),
@attr
#[verifier::loop_isolation(false)]
@pre
broadcast use {group_shr1, group_lz};
proof { lemma_bitlen_bound(*self as nat); }
@loop 0
invariant rv + bitlen(tp as nat) == bitlen(*self as nat),
decreases tp,

