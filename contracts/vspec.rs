use vstd::prelude::*;
verus! {

// ------------------------------------------------------------------ numbers and bytes
pub open spec fn pow256(n: nat) -> nat
    decreases n,
{
    if n == 0 { 1 } else { 256 * pow256((n - 1) as nat) }
}

/// big-endian value of the first k bytes of s
pub open spec fn bev(s: Seq<u8>, k: int) -> nat
    decreases k,
{
    if k <= 0 { 0 } else { bev(s, k - 1) * 256 + s[k - 1] as nat }
}

/// big-endian value of s
pub open spec fn be(s: Seq<u8>) -> nat { bev(s, s.len() as int) }

/// the n low-order bytes of x in network order
pub open spec fn be_bytes(x: nat, n: nat) -> Seq<u8>
    decreases n,
{
    if n == 0 { Seq::empty() } else { be_bytes(x / 256, (n - 1) as nat).push((x % 256) as u8) }
}

/// what a reader got and what it left
pub open spec fn got<A>(o: Option<(A, Seq<u8>)>) -> A { (o->0).0 }
pub open spec fn left<A>(o: Option<(A, Seq<u8>)>) -> Seq<u8> { (o->0).1 }

// ------------------------------------------------------------------ readers
/// a fixed number of bytes
pub open spec fn p_bytes(s: Seq<u8>, n: nat) -> Option<(Seq<u8>, Seq<u8>)> {
    if s.len() < n { None } else { Some((s.take(n as int), s.skip(n as int))) }
}

/// a big-endian integer of n bytes
pub open spec fn p_int(s: Seq<u8>, n: nat) -> Option<(nat, Seq<u8>)> {
    if s.len() < n { None } else { Some((bev(s, n as int), s.skip(n as int))) }
}

// ------------------------------------------------------------------ variable-length integers (RFC 9000, 16)
pub open spec fn vlen(b: u8) -> nat {
    if b < 0x40 { 1 } else if b < 0x80 { 2 } else if b < 0xc0 { 4 } else { 8 }
}

/// value of the first k bytes of a variable-length integer, without the two length bits
pub open spec fn vacc(s: Seq<u8>, k: int) -> nat
    decreases k,
{
    if k <= 1 { (s[0] % 64) as nat } else { vacc(s, k - 1) * 256 + s[k - 1] as nat }
}

pub open spec fn p_varint(s: Seq<u8>) -> Option<(u64, Seq<u8>)> {
    if s.len() == 0 || s.len() < vlen(s[0]) { None } else {
        Some((vacc(s, vlen(s[0]) as int) as u64, s.skip(vlen(s[0]) as int)))
    }
}

pub open spec fn varint_ok(x: nat) -> bool { x < 0x4000_0000_0000_0000 }

/// the shortest encoding
pub open spec fn e_varint(x: nat) -> Seq<u8> {
    if x < 0x40 { be_bytes(x, 1) }
    else if x < 0x4000 { be_bytes(x + 0x4000, 2) }
    else if x < 0x4000_0000 { be_bytes(x + 0x8000_0000, 4) }
    else { be_bytes((x + 0xc000_0000_0000_0000) as nat, 8) }
}

// ------------------------------------------------------------------ 160-bit values
pub open spec fn u160_nat(hi: u32, lo: u128) -> nat {
    (hi as nat) * 0x1_0000_0000_0000_0000_0000_0000_0000_0000 + lo as nat
}

/// bytes of a 160-bit value in n bytes: the n low-order bytes
pub open spec fn e_cid(v: nat, n: nat) -> Seq<u8> { be_bytes(v, n) }

pub open spec fn opt2<A, B>(a: Option<A>, b: Option<B>) -> bool { a is Some && b is Some }

/// number of significant bits
pub open spec fn bitlen(x: nat) -> nat
    decreases x,
{
    if x == 0 { 0 } else { 1 + bitlen(x / 2) }
}

// ------------------------------------------------------------------ lemmas
pub proof fn lemma_pow256_vals()
    ensures
        pow256(0) == 1, pow256(1) == 0x100, pow256(2) == 0x1_0000, pow256(3) == 0x100_0000, pow256(4) == 0x1_0000_0000,
        pow256(5) == 0x100_0000_0000, pow256(6) == 0x1_0000_0000_0000, pow256(7) == 0x100_0000_0000_0000,
        pow256(8) == 0x1_0000_0000_0000_0000,
        pow256(15) == 0x100_0000_0000_0000_0000_0000_0000_0000,
        pow256(16) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000,
        pow256(19) == 0x100_0000_0000_0000_0000_0000_0000_0000_0000_0000,
        pow256(20) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000,
{
    assert(pow256(0) == 1) by (compute);
    assert(pow256(1) == 0x100) by (compute);
    assert(pow256(2) == 0x1_0000) by (compute);
    assert(pow256(3) == 0x100_0000) by (compute);
    assert(pow256(4) == 0x1_0000_0000) by (compute);
    assert(pow256(5) == 0x100_0000_0000) by (compute);
    assert(pow256(6) == 0x1_0000_0000_0000) by (compute);
    assert(pow256(7) == 0x100_0000_0000_0000) by (compute);
    assert(pow256(8) == 0x1_0000_0000_0000_0000) by (compute);
    assert(pow256(15) == 0x100_0000_0000_0000_0000_0000_0000_0000) by (compute);
    assert(pow256(16) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000) by (compute);
    assert(pow256(19) == 0x100_0000_0000_0000_0000_0000_0000_0000_0000_0000) by (compute);
    assert(pow256(20) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000) by (compute);
}

pub proof fn lemma_pow256_mono(a: nat, b: nat)
    requires a <= b,
    ensures pow256(a) <= pow256(b), pow256(a) >= 1,
    decreases b,
{
    if b > 0 {
        if a < b { lemma_pow256_mono(a, (b - 1) as nat); } else { lemma_pow256_mono((a - 1) as nat, (b - 1) as nat); }
    }
}

pub broadcast proof fn lemma_bev_bound(s: Seq<u8>, k: int)
    requires 0 <= k,
    ensures #[trigger] bev(s, k) < pow256(k as nat),
    decreases k,
{
    if k > 0 { lemma_bev_bound(s, k - 1); }
}

/// bounds of partial big-endian values in literals
pub broadcast proof fn lemma_bev_bound_lit(s: Seq<u8>, k: int)
    ensures
        0 <= k <= 1 ==> #[trigger] bev(s, k) < 0x100,
        k <= 2 ==> bev(s, k) < 0x1_0000,
        k <= 3 ==> bev(s, k) < 0x100_0000,
        k <= 4 ==> bev(s, k) < 0x1_0000_0000,
        k <= 7 ==> bev(s, k) < 0x100_0000_0000_0000,
        k <= 8 ==> bev(s, k) < 0x1_0000_0000_0000_0000,
        k <= 15 ==> bev(s, k) < 0x100_0000_0000_0000_0000_0000_0000_0000,
        k <= 16 ==> bev(s, k) < 0x1_0000_0000_0000_0000_0000_0000_0000_0000,
        k <= 19 ==> bev(s, k) < 0x100_0000_0000_0000_0000_0000_0000_0000_0000_0000,
        k <= 20 ==> bev(s, k) < 0x1_0000_0000_0000_0000_0000_0000_0000_0000_0000_0000,
{
    lemma_pow256_vals();
    if 0 <= k {
        lemma_bev_bound(s, k);
        if k <= 1 { lemma_pow256_mono(k as nat, 1); }
        if k <= 2 { lemma_pow256_mono(k as nat, 2); }
        if k <= 3 { lemma_pow256_mono(k as nat, 3); }
        if k <= 4 { lemma_pow256_mono(k as nat, 4); }
        if k <= 7 { lemma_pow256_mono(k as nat, 7); }
        if k <= 8 { lemma_pow256_mono(k as nat, 8); }
        if k <= 15 { lemma_pow256_mono(k as nat, 15); }
        if k <= 16 { lemma_pow256_mono(k as nat, 16); }
        if k <= 19 { lemma_pow256_mono(k as nat, 19); }
        if k <= 20 { lemma_pow256_mono(k as nat, 20); }
    }
}

pub proof fn lemma_vacc_bound(s: Seq<u8>, k: int)
    requires 1 <= k,
    ensures vacc(s, k) < 64 * pow256((k - 1) as nat),
    decreases k,
{
    if k > 1 { lemma_vacc_bound(s, k - 1); }
}

pub broadcast proof fn lemma_vacc_bound_lit(s: Seq<u8>, k: int)
    ensures
        k <= 1 ==> #[trigger] vacc(s, k) < 0x40,
        k <= 2 ==> vacc(s, k) < 0x4000,
        k <= 4 ==> vacc(s, k) < 0x4000_0000,
        k <= 7 ==> vacc(s, k) < 0x40_0000_0000_0000,
        k <= 8 ==> vacc(s, k) < 0x4000_0000_0000_0000,
{
    lemma_pow256_vals();
    if 1 <= k <= 8 {
        lemma_vacc_bound(s, k);
        if k <= 2 { lemma_pow256_mono((k - 1) as nat, 1); }
        if k <= 4 { lemma_pow256_mono((k - 1) as nat, 3); }
        if k <= 7 { lemma_pow256_mono((k - 1) as nat, 6); }
        lemma_pow256_mono((k - 1) as nat, 7);
    }
}

pub broadcast proof fn lemma_skip_skip(s: Seq<u8>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len(),
    ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b),
{
    assert(s.skip(a).skip(b) =~= s.skip(a + b));
}

pub broadcast proof fn lemma_skip_0(s: Seq<u8>)
    ensures #[trigger] s.skip(0) == s,
{
    assert(s.skip(0) =~= s);
}

/// the value of the first k bytes depends on nothing else
pub proof fn lemma_bev_ext(a: Seq<u8>, b: Seq<u8>, k: int)
    requires forall|i: int| 0 <= i < k ==> a[i] == b[i],
    ensures bev(a, k) == bev(b, k),
    decreases k,
{
    if k > 0 { lemma_bev_ext(a, b, k - 1); }
}

pub broadcast proof fn lemma_bev_ext_b(a: Seq<u8>, b: Seq<u8>, k: int)
    requires forall|i: int| 0 <= i < k ==> a[i] == b[i],
    ensures #[trigger] bev(a, k) == #[trigger] bev(b, k),
{
    lemma_bev_ext(a, b, k);
}

pub proof fn lemma_be_bytes_len(x: nat, n: nat)
    ensures be_bytes(x, n).len() == n,
    decreases n,
{
    if n > 0 { lemma_be_bytes_len(x / 256, (n - 1) as nat); }
}

pub broadcast proof fn lemma_be_bytes_len_b(x: nat, n: nat)
    ensures #[trigger] be_bytes(x, n).len() == n,
{
    lemma_be_bytes_len(x, n);
}

/// writing then reading
pub proof fn lemma_be_of_be_bytes(x: nat, n: nat)
    ensures be(be_bytes(x, n)) == x % pow256(n), x < pow256(n) ==> be(be_bytes(x, n)) == x,
    decreases n,
{
    lemma_be_bytes_len(x, n);
    if n > 0 {
        let m = (n - 1) as nat;
        lemma_be_of_be_bytes(x / 256, m);
        lemma_be_bytes_len(x / 256, m);
        lemma_bev_ext(be_bytes(x, n), be_bytes(x / 256, m), m as int);
        lemma_pow256_mono(0, m);
        let p = pow256(m);
        assert((x / 256) % p * 256 + x % 256 == x % (256 * p)) by {
            vstd::arithmetic::div_mod::lemma_mod_breakdown(x as int, 256, p as int);
        }
    }
    if x < pow256(n) { vstd::arithmetic::div_mod::lemma_small_mod(x, pow256(n)); }
    if n == 0 { assert(x % 1 == 0); }
}

/// reading then writing
pub proof fn lemma_be_bytes_of_bev(s: Seq<u8>, n: nat)
    requires n <= s.len(),
    ensures be_bytes(bev(s, n as int), n) == s.take(n as int),
    decreases n,
{
    if n > 0 {
        let m = (n - 1) as nat;
        lemma_be_bytes_of_bev(s, m);
        let v = bev(s, n as int);
        let b = s[m as int];
        assert(v == bev(s, m as int) * 256 + b as nat);
        assert(v / 256 == bev(s, m as int) && v % 256 == b as nat) by {
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(v as int, 256, bev(s, m as int) as int, b as int);
        }
        assert(s.take(n as int) =~= s.take(m as int).push(b));
    } else {
        assert(s.take(0) =~= Seq::<u8>::empty());
    }
}

pub proof fn lemma_be_bytes_inj(x: nat, y: nat, n: nat)
    requires x < pow256(n), y < pow256(n), be_bytes(x, n) == be_bytes(y, n),
    ensures x == y,
{
    lemma_be_of_be_bytes(x, n);
    lemma_be_of_be_bytes(y, n);
}

/// the last n bytes of a longer representation are the n-byte representation
pub proof fn lemma_be_bytes_suffix(x: nat, m: nat, n: nat)
    requires n <= m,
    ensures be_bytes(x, m).skip((m - n) as int) == be_bytes(x, n),
    decreases n,
{
    lemma_be_bytes_len(x, m);
    if n == 0 {
        assert(be_bytes(x, m).skip(m as int) =~= Seq::<u8>::empty());
    } else {
        lemma_be_bytes_suffix(x / 256, (m - 1) as nat, (n - 1) as nat);
        lemma_be_bytes_len(x / 256, (m - 1) as nat);
        assert(be_bytes(x, m).skip((m - n) as int) =~= be_bytes(x / 256, (m - 1) as nat).skip((m - n) as int).push((x % 256) as u8));
    }
}

// bit-vector facts about accumulating bytes
pub broadcast proof fn lemma_shl8_or_u16(x: u16, b: u16)
    requires x < 0x100, b < 0x100,
    ensures #[trigger] ((x << 8) | b) == x * 256 + b,
{
    assert(((x << 8) | b) == x * 256 + b) by (bit_vector) requires x < 0x100, b < 0x100;
}
pub broadcast proof fn lemma_shl8_or_u32(x: u32, b: u32)
    requires x < 0x100_0000, b < 0x100,
    ensures #[trigger] ((x << 8) | b) == x * 256 + b,
{
    assert(((x << 8) | b) == x * 256 + b) by (bit_vector) requires x < 0x100_0000, b < 0x100;
}
pub broadcast proof fn lemma_shl8_or_u64(x: u64, b: u64)
    requires x < 0x100_0000_0000_0000, b < 0x100,
    ensures #[trigger] ((x << 8) | b) == x * 256 + b,
{
    assert(((x << 8) | b) == x * 256 + b) by (bit_vector) requires x < 0x100_0000_0000_0000, b < 0x100;
}
pub broadcast proof fn lemma_shl8_or_u128(x: u128, b: u128)
    requires x < 0x100_0000_0000_0000_0000_0000_0000_0000, b < 0x100,
    ensures #[trigger] ((x << 8) | b) == x * 256 + b,
{
    assert(((x << 8) | b) == x * 256 + b) by (bit_vector) requires x < 0x100_0000_0000_0000_0000_0000_0000_0000, b < 0x100;
}
pub broadcast proof fn lemma_shl8_or_u128_wrap(x: u128, b: u128)
    requires b < 0x100,
    ensures #[trigger] ((x << 8) | b) == (x % 0x100_0000_0000_0000_0000_0000_0000_0000) * 256 + b,
{
    assert(((x << 8) | b) == (x % 0x100_0000_0000_0000_0000_0000_0000_0000) * 256 + b) by (bit_vector) requires b < 0x100;
}
pub broadcast proof fn lemma_shl8_u64(x: u64)
    requires x < 0x100_0000_0000_0000,
    ensures #[trigger] (x << 8) == x * 256,
{
    assert((x << 8) == x * 256) by (bit_vector) requires x < 0x100_0000_0000_0000;
}
pub broadcast proof fn lemma_low6(b: u8)
    ensures #[trigger] (b & 0x3f) == b % 64,
{
    assert((b & 0x3f) == b % 64) by (bit_vector);
}
pub broadcast proof fn lemma_top2(b: u8)
    ensures
        #[trigger] (b >> 6) < 4, b < 0x40 <==> (b >> 6) == 0, (0x40 <= b < 0x80) <==> (b >> 6) == 1,
        (0x80 <= b < 0xc0) <==> (b >> 6) == 2, b >= 0xc0 <==> (b >> 6) == 3,
{
    assert((b >> 6) < 4 && (b < 0x40 <==> (b >> 6) == 0) && ((0x40 <= b && b < 0x80) <==> (b >> 6) == 1)
        && ((0x80 <= b && b < 0xc0) <==> (b >> 6) == 2) && (b >= 0xc0 <==> (b >> 6) == 3)) by (bit_vector);
}
pub broadcast proof fn lemma_one_shl(n: usize)
    requires n < 4,
    ensures #[trigger] (1usize << n) == (if n == 0 { 1usize } else if n == 1 { 2 } else if n == 2 { 4 } else { 8 }),
{
    assert((1usize << n) == (if n == 0 { 1usize } else if n == 1 { 2 } else if n == 2 { 4 } else { 8 })) by (bit_vector) requires n < 4;
}


// ------------------------------------------------------------------ byte-wise updates and 160-bit shifts
pub broadcast proof fn lemma_bev_update(s: Seq<u8>, i: int, b: u8, k: int)
    requires k <= i, 0 <= i < s.len(),
    ensures #[trigger] bev(s.update(i, b), k) == bev(s, k),
{
    lemma_bev_ext(s.update(i, b), s, k);
}
pub broadcast proof fn lemma_bev_push(s: Seq<u8>, b: u8, k: int)
    requires 0 <= k <= s.len(),
    ensures #[trigger] bev(s.push(b), k) == bev(s, k),
{
    lemma_bev_ext(s.push(b), s, k);
}
pub broadcast proof fn lemma_bev_take(s: Seq<u8>, n: int, k: int)
    requires 0 <= k <= n <= s.len(),
    ensures #[trigger] bev(s.take(n), k) == bev(s, k),
{
    lemma_bev_ext(s.take(n), s, k);
}
/// v / 256^i
pub open spec fn sh8(v: nat, i: nat) -> nat
    decreases i,
{
    if i == 0 { v } else { sh8(v, (i - 1) as nat) / 256 }
}
pub proof fn lemma_sh8_div(v: nat, i: nat)
    ensures sh8(v / 256, i) == sh8(v, i) / 256,
    decreases i,
{
    if i > 0 { lemma_sh8_div(v, (i - 1) as nat); }
}
pub broadcast proof fn lemma_be_bytes_front(b: u8, v: nat, i: nat)
    requires b == sh8(v, i) % 256,
    ensures #[trigger] (seq![b] + be_bytes(v, i)) == be_bytes(v, i + 1),
    decreases i,
{
    if i > 0 {
        lemma_sh8_div(v, (i - 1) as nat);
        lemma_be_bytes_front(b, v / 256, (i - 1) as nat);
        assert(seq![b] + be_bytes(v, i) =~= (seq![b] + be_bytes(v / 256, (i - 1) as nat)).push((v % 256) as u8));
    } else {
        assert(be_bytes(v, 1) == be_bytes(v / 256, 0).push((v % 256) as u8));
        assert(seq![b] + be_bytes(v, 0) =~= be_bytes(v, 1));
    }
}
pub broadcast proof fn lemma_update_skip(s: Seq<u8>, i: int, b: u8)
    requires 0 <= i < s.len(),
    ensures #[trigger] s.update(i, b).skip(i) == seq![b] + s.skip(i + 1),
{
    assert(s.update(i, b).skip(i) =~= seq![b] + s.skip(i + 1));
}
pub broadcast proof fn lemma_u128_low(x: u128)
    ensures #[trigger] (x & 0xff) == x % 256,
{
    assert((x & 0xff) == x % 256) by (bit_vector);
}
pub broadcast proof fn lemma_u32_low(x: u32)
    ensures #[trigger] (x & 0xff) == x % 256,
{
    assert((x & 0xff) == x % 256) by (bit_vector);
}
pub broadcast proof fn lemma_u128_shr8(x: u128)
    ensures #[trigger] (x >> 8) == x / 256,
{
    assert((x >> 8) == x / 256) by (bit_vector);
}
pub broadcast proof fn lemma_u32_shr8(x: u32)
    ensures #[trigger] (x >> 8) == x / 256,
{
    assert((x >> 8) == x / 256) by (bit_vector);
}
pub broadcast proof fn lemma_u128_top(y: u128, h: u128)
    requires y < 0x100_0000_0000_0000_0000_0000_0000_0000, h < 0x100,
    ensures #[trigger] (y | (h << 120)) == y + h * 0x100_0000_0000_0000_0000_0000_0000_0000,
{
    assert((y | (h << 120)) == y + h * 0x100_0000_0000_0000_0000_0000_0000_0000) by (bit_vector)
        requires y < 0x100_0000_0000_0000_0000_0000_0000_0000, h < 0x100;
}
pub broadcast proof fn lemma_u128_shr120(x: u128)
    ensures #[trigger] (x >> 120) == x / 0x100_0000_0000_0000_0000_0000_0000_0000, (x >> 120) < 0x100,
{
    assert((x >> 120) == x / 0x100_0000_0000_0000_0000_0000_0000_0000) by (bit_vector);
}
pub broadcast proof fn lemma_u128_mask120(x: u128)
    ensures #[trigger] (x & 0xff_ffff_ffff_ffff_ffff_ffff_ffff_ffff) == x % 0x100_0000_0000_0000_0000_0000_0000_0000,
{
    assert((x & 0xff_ffff_ffff_ffff_ffff_ffff_ffff_ffff) == x % 0x100_0000_0000_0000_0000_0000_0000_0000) by (bit_vector);
}

pub broadcast proof fn lemma_be_bytes_suffix_b(x: nat, m: nat, k: int)
    requires 0 <= k <= m,
    ensures #[trigger] be_bytes(x, m).skip(k) == be_bytes(x, (m - k) as nat),
{
    lemma_be_bytes_suffix(x, m, (m - k) as nat);
}
pub proof fn lemma_encode_consts(x: u64)
    ensures
        (1u64 << 0u64) == 1, (1u64 << 1u64) == 2, (1u64 << 2u64) == 4, (1u64 << 3u64) == 8,
        ((0u64 << 6) << 0u64) == 0, ((1u64 << 6) << 8u64) == 0x4000, ((2u64 << 6) << 24u64) == 0x8000_0000,
        ((3u64 << 6) << 56u64) == 0xc000_0000_0000_0000u64,
        (0u64 | x) == x,
        x < 0x4000 ==> (0x4000u64 | x) == x + 0x4000,
        x < 0x4000_0000 ==> (0x8000_0000u64 | x) == x + 0x8000_0000,
        x < 0x4000_0000_0000_0000 ==> (0xc000_0000_0000_0000u64 | x) == x + 0xc000_0000_0000_0000,
{
    assert((1u64 << 0u64) == 1 && (1u64 << 1u64) == 2 && (1u64 << 2u64) == 4 && (1u64 << 3u64) == 8
        && ((0u64 << 6) << 0u64) == 0 && ((1u64 << 6) << 8u64) == 0x4000 && ((2u64 << 6) << 24u64) == 0x8000_0000
        && ((3u64 << 6) << 56u64) == 0xc000_0000_0000_0000u64 && (0u64 | x) == x) by (bit_vector);
    if x < 0x4000 { assert((0x4000u64 | x) == x + 0x4000) by (bit_vector) requires x < 0x4000; }
    if x < 0x4000_0000 { assert((0x8000_0000u64 | x) == x + 0x8000_0000) by (bit_vector) requires x < 0x4000_0000; }
    if x < 0x4000_0000_0000_0000 { assert((0xc000_0000_0000_0000u64 | x) == x + 0xc000_0000_0000_0000) by (bit_vector) requires x < 0x4000_0000_0000_0000; }
}
pub broadcast proof fn lemma_u8_shr1(x: u8) ensures #[trigger] (x >> 1) == x / 2 { assert((x >> 1) == x / 2) by (bit_vector); }
pub broadcast proof fn lemma_u16_shr1(x: u16) ensures #[trigger] (x >> 1) == x / 2 { assert((x >> 1) == x / 2) by (bit_vector); }
pub broadcast proof fn lemma_u32_shr1(x: u32) ensures #[trigger] (x >> 1) == x / 2 { assert((x >> 1) == x / 2) by (bit_vector); }
pub broadcast proof fn lemma_u64_shr1(x: u64) ensures #[trigger] (x >> 1) == x / 2 { assert((x >> 1) == x / 2) by (bit_vector); }
pub broadcast group group_shr1 { lemma_u8_shr1, lemma_u16_shr1, lemma_u32_shr1, lemma_u64_shr1 }
pub broadcast proof fn lemma_u8_shr(b: u8, n: u8)
    ensures #![trigger (b >> n)]
        (n == 0 ==> (b >> n) == b) && (n == 1 ==> (b >> n) == b / 2) && (n == 2 ==> (b >> n) == b / 4) && (n == 3 ==> (b >> n) == b / 8)
        && (n == 4 ==> (b >> n) == b / 16) && (n == 5 ==> (b >> n) == b / 32) && (n == 6 ==> (b >> n) == b / 64) && (n == 7 ==> (b >> n) == b / 128),
{
    assert((n == 0 ==> (b >> n) == b) && (n == 1 ==> (b >> n) == b / 2) && (n == 2 ==> (b >> n) == b / 4) && (n == 3 ==> (b >> n) == b / 8)
        && (n == 4 ==> (b >> n) == b / 16) && (n == 5 ==> (b >> n) == b / 32) && (n == 6 ==> (b >> n) == b / 64) && (n == 7 ==> (b >> n) == b / 128)) by (bit_vector);
}
pub broadcast proof fn lemma_u8_and(b: u8, m: u8)
    ensures #![trigger (b & m)]
        (m == 1 ==> (b & m) == b % 2) && (m == 3 ==> (b & m) == b % 4) && (m == 7 ==> (b & m) == b % 8) && (m == 0xf ==> (b & m) == b % 16)
        && (m == 0x1f ==> (b & m) == b % 32) && (m == 0x3f ==> (b & m) == b % 64) && (m == 0x7f ==> (b & m) == b % 128)
        && (m == 2 ==> (b & m) == (b / 2) % 2 * 2) && (m == 4 ==> (b & m) == (b / 4) % 2 * 4) && (m == 8 ==> (b & m) == (b / 8) % 2 * 8)
        && (m == 0x10 ==> (b & m) == (b / 16) % 2 * 16) && (m == 0x20 ==> (b & m) == (b / 32) % 2 * 32) && (m == 0x40 ==> (b & m) == (b / 64) % 2 * 64)
        && (m == 0x80 ==> (b & m) == (b / 128) * 128) && (m == 0x30 ==> (b & m) == (b / 16) % 4 * 16) && (m == 0x18 ==> (b & m) == (b / 8) % 4 * 8)
        && (m == 0xc0 ==> (b & m) == (b / 64) * 64) && (m == 0xf0 ==> (b & m) == (b / 16) * 16),
{
    assert((m == 1 ==> (b & m) == b % 2) && (m == 3 ==> (b & m) == b % 4) && (m == 7 ==> (b & m) == b % 8) && (m == 0xf ==> (b & m) == b % 16)
        && (m == 0x1f ==> (b & m) == b % 32) && (m == 0x3f ==> (b & m) == b % 64) && (m == 0x7f ==> (b & m) == b % 128)) by (bit_vector);
    assert((m == 2 ==> (b & m) == (b / 2) % 2 * 2) && (m == 4 ==> (b & m) == (b / 4) % 2 * 4) && (m == 8 ==> (b & m) == (b / 8) % 2 * 8)
        && (m == 0x10 ==> (b & m) == (b / 16) % 2 * 16) && (m == 0x20 ==> (b & m) == (b / 32) % 2 * 32) && (m == 0x40 ==> (b & m) == (b / 64) % 2 * 64)
        && (m == 0x80 ==> (b & m) == (b / 128) * 128) && (m == 0x30 ==> (b & m) == (b / 16) % 4 * 16) && (m == 0x18 ==> (b & m) == (b / 8) % 4 * 8)
        && (m == 0xc0 ==> (b & m) == (b / 64) * 64) && (m == 0xf0 ==> (b & m) == (b / 16) * 16)) by (bit_vector);
}
pub broadcast group group_bits { lemma_u8_shr, lemma_u8_and, lemma_u16_shr1, lemma_u32_shr1, lemma_u64_shr1 }
pub open spec fn pow2n(n: nat) -> nat
    decreases n,
{
    if n == 0 { 1 } else { 2 * pow2n((n - 1) as nat) }
}
pub proof fn lemma_bitlen_pow(x: nat)
    requires x > 0,
    ensures bitlen(x) > 0, pow2n((bitlen(x) - 1) as nat) <= x < pow2n(bitlen(x)),
    decreases x,
{
    if x > 1 {
        lemma_bitlen_pow(x / 2);
    } else {
        assert(bitlen(1) == 1) by { reveal_with_fuel(bitlen, 2); }
        reveal_with_fuel(pow2n, 2);
    }
}
pub proof fn lemma_pow2n_mono(a: nat, b: nat)
    requires a <= b,
    ensures 1 <= pow2n(a) <= pow2n(b),
    decreases b,
{
    if b > 0 { if a < b { lemma_pow2n_mono(a, (b - 1) as nat); } else { lemma_pow2n_mono((a - 1) as nat, (b - 1) as nat); } }
}
pub proof fn lemma_bitlen_bound(x: nat)
    requires x <= u64::MAX,
    ensures bitlen(x) <= 64,
{
    if x > 0 {
        lemma_bitlen_pow(x);
        assert(pow2n(64) == 0x1_0000_0000_0000_0000) by (compute);
        if bitlen(x) > 64 { lemma_pow2n_mono(64, (bitlen(x) - 1) as nat); }
    }
}

/// a number below 2^k has at most k bits
pub proof fn lemma_bitlen_le(x: nat, k: nat)
    requires x < pow2n(k),
    ensures bitlen(x) <= k,
    decreases k,
{
    if x > 0 {
        if k == 0 { assert(pow2n(0) == 1); } else {
            assert(pow2n(k) == 2 * pow2n((k - 1) as nat));
            assert(x / 2 < pow2n((k - 1) as nat)) by (nonlinear_arith) requires x < 2 * pow2n((k - 1) as nat);
            lemma_bitlen_le(x / 2, (k - 1) as nat);
        }
    }
}
pub proof fn lemma_pow2n_pow2(n: nat)
    ensures pow2n(n) == vstd::arithmetic::power2::pow2(n),
    decreases n,
{
    if n == 0 { vstd::arithmetic::power2::lemma2_to64(); } else {
        lemma_pow2n_pow2((n - 1) as nat);
        vstd::arithmetic::power2::lemma_pow2_unfold(n);
    }
}
/// the bit length is the only n with 2^(n-1) <= x < 2^n
pub proof fn lemma_bitlen_unique(x: nat, n: nat)
    requires n > 0, pow2n((n - 1) as nat) <= x < pow2n(n),
    ensures bitlen(x) == n,
{
    lemma_bitlen_le(x, n);
    lemma_pow2n_mono(0, (n - 1) as nat);
    assert(pow2n(0) == 1);
    lemma_bitlen_pow(x);
    if bitlen(x) < n { lemma_pow2n_mono(bitlen(x), (n - 1) as nat); }
}
pub broadcast proof fn lemma_lz_u8(x: u8)
    ensures #[trigger] vstd::std_specs::bits::u8_leading_zeros(x) == 8 - bitlen(x as nat), bitlen(x as nat) <= 8,
{
    vstd::std_specs::bits::axiom_u8_leading_zeros(x);
    let r = vstd::std_specs::bits::u8_leading_zeros(x);
    assert(pow2n(8) == 256) by (compute_only);
    if x != 0 {
        let n = (8 - r) as u8;
        let k = (7 - r) as u8;
        vstd::bits::lemma_u8_shr_is_div(x, k);
        lemma_pow2n_pow2(k as nat);
        lemma_pow2n_pow2(n as nat);
        vstd::arithmetic::power2::lemma_pow2_pos(k as nat);
        vstd::arithmetic::power2::lemma_pow2_pos(n as nat);
        assert((x >> k) & 1 != 0);
        let sh = x >> k;
        assert(sh & 1 != 0 ==> sh >= 1) by (bit_vector);
        assert(x as nat >= pow2n(k as nat)) by (nonlinear_arith)
            requires x as nat / pow2n(k as nat) >= 1, pow2n(k as nat) > 0;
        if n < 8 {
            vstd::bits::lemma_u8_shr_is_div(x, n);
            assert(x >> n == 0);
            assert((x as nat) < pow2n(n as nat)) by (nonlinear_arith)
                requires x as nat / pow2n(n as nat) == 0, pow2n(n as nat) > 0;
        }
        lemma_bitlen_unique(x as nat, n as nat);
    }
}
pub broadcast proof fn lemma_lz_u16(x: u16)
    ensures #[trigger] vstd::std_specs::bits::u16_leading_zeros(x) == 16 - bitlen(x as nat), bitlen(x as nat) <= 16,
{
    vstd::std_specs::bits::axiom_u16_leading_zeros(x);
    let r = vstd::std_specs::bits::u16_leading_zeros(x);
    assert(pow2n(16) == 65536) by (compute_only);
    if x != 0 {
        let n = (16 - r) as u16;
        let k = (15 - r) as u16;
        vstd::bits::lemma_u16_shr_is_div(x, k);
        lemma_pow2n_pow2(k as nat);
        lemma_pow2n_pow2(n as nat);
        vstd::arithmetic::power2::lemma_pow2_pos(k as nat);
        vstd::arithmetic::power2::lemma_pow2_pos(n as nat);
        assert((x >> k) & 1 != 0);
        let sh = x >> k;
        assert(sh & 1 != 0 ==> sh >= 1) by (bit_vector);
        assert(x as nat >= pow2n(k as nat)) by (nonlinear_arith)
            requires x as nat / pow2n(k as nat) >= 1, pow2n(k as nat) > 0;
        if n < 16 {
            vstd::bits::lemma_u16_shr_is_div(x, n);
            assert(x >> n == 0);
            assert((x as nat) < pow2n(n as nat)) by (nonlinear_arith)
                requires x as nat / pow2n(n as nat) == 0, pow2n(n as nat) > 0;
        }
        lemma_bitlen_unique(x as nat, n as nat);
    }
}
pub broadcast proof fn lemma_lz_u32(x: u32)
    ensures #[trigger] vstd::std_specs::bits::u32_leading_zeros(x) == 32 - bitlen(x as nat), bitlen(x as nat) <= 32,
{
    vstd::std_specs::bits::axiom_u32_leading_zeros(x);
    let r = vstd::std_specs::bits::u32_leading_zeros(x);
    assert(pow2n(32) == 4294967296) by (compute_only);
    if x != 0 {
        let n = (32 - r) as u32;
        let k = (31 - r) as u32;
        vstd::bits::lemma_u32_shr_is_div(x, k);
        lemma_pow2n_pow2(k as nat);
        lemma_pow2n_pow2(n as nat);
        vstd::arithmetic::power2::lemma_pow2_pos(k as nat);
        vstd::arithmetic::power2::lemma_pow2_pos(n as nat);
        assert((x >> k) & 1 != 0);
        let sh = x >> k;
        assert(sh & 1 != 0 ==> sh >= 1) by (bit_vector);
        assert(x as nat >= pow2n(k as nat)) by (nonlinear_arith)
            requires x as nat / pow2n(k as nat) >= 1, pow2n(k as nat) > 0;
        if n < 32 {
            vstd::bits::lemma_u32_shr_is_div(x, n);
            assert(x >> n == 0);
            assert((x as nat) < pow2n(n as nat)) by (nonlinear_arith)
                requires x as nat / pow2n(n as nat) == 0, pow2n(n as nat) > 0;
        }
        lemma_bitlen_unique(x as nat, n as nat);
    }
}
pub broadcast proof fn lemma_lz_u64(x: u64)
    ensures #[trigger] vstd::std_specs::bits::u64_leading_zeros(x) == 64 - bitlen(x as nat), bitlen(x as nat) <= 64,
{
    vstd::std_specs::bits::axiom_u64_leading_zeros(x);
    let r = vstd::std_specs::bits::u64_leading_zeros(x);
    assert(pow2n(64) == 18446744073709551616) by (compute_only);
    if x != 0 {
        let n = (64 - r) as u64;
        let k = (63 - r) as u64;
        vstd::bits::lemma_u64_shr_is_div(x, k);
        lemma_pow2n_pow2(k as nat);
        lemma_pow2n_pow2(n as nat);
        vstd::arithmetic::power2::lemma_pow2_pos(k as nat);
        vstd::arithmetic::power2::lemma_pow2_pos(n as nat);
        assert((x >> k) & 1 != 0);
        let sh = x >> k;
        assert(sh & 1 != 0 ==> sh >= 1) by (bit_vector);
        assert(x as nat >= pow2n(k as nat)) by (nonlinear_arith)
            requires x as nat / pow2n(k as nat) >= 1, pow2n(k as nat) > 0;
        if n < 64 {
            vstd::bits::lemma_u64_shr_is_div(x, n);
            assert(x >> n == 0);
            assert((x as nat) < pow2n(n as nat)) by (nonlinear_arith)
                requires x as nat / pow2n(n as nat) == 0, pow2n(n as nat) > 0;
        }
        lemma_bitlen_unique(x as nat, n as nat);
    }
}
pub broadcast group group_lz { lemma_lz_u8, lemma_lz_u16, lemma_lz_u32, lemma_lz_u64 }
/// the 20 bytes of a 160-bit value: those of its high word, then those of its low word
pub broadcast proof fn lemma_u160_split(hi: u32, lo: u128)
    ensures be_bytes(#[trigger] u160_nat(hi, lo), 20) == be_bytes(hi as nat, 4) + be_bytes(lo as nat, 16),
{
    assert(pow256(16) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000) by (compute_only);
    lemma_be_bytes_split(hi as nat, lo as nat, 4, 16);
}
pub proof fn lemma_be_bytes_split(h: nat, l: nat, m: nat, n: nat)
    requires l < pow256(n),
    ensures be_bytes(h * pow256(n) + l, m + n) == be_bytes(h, m) + be_bytes(l, n),
    decreases n,
{
    if n == 0 {
        assert(pow256(0) == 1);
        assert(h * 1 + l == h);
        assert(be_bytes(l, 0) =~= Seq::empty());
        assert(be_bytes(h, m) + be_bytes(l, 0) =~= be_bytes(h, m));
    } else {
        let k = (n - 1) as nat;
        let p = pow256(k);
        let x = h * pow256(n) + l;
        assert(pow256(n) == 256 * p);
        assert(x / 256 == h * p + l / 256 && x % 256 == l % 256 && l / 256 < p) by (nonlinear_arith)
            requires x == h * (256 * p) + l, l < 256 * p, p > 0 || p == 0;
        lemma_be_bytes_split(h, l / 256, m, k);
        assert((m + n - 1) as nat == m + k);
        assert(be_bytes(x, m + n) =~= be_bytes(h, m) + be_bytes(l, n));
    }
}
pub broadcast proof fn lemma_subrange_full<A>(s: Seq<A>, n: int)
    requires n == s.len(),
    ensures #[trigger] s.subrange(0, n) == s,
{
    assert(s.subrange(0, n) =~= s);
}
/// concatenations are compared in right-associated form
pub broadcast proof fn lemma_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures #[trigger] ((a + b) + c) == a + (b + c),
{
    assert(((a + b) + c) =~= a + (b + c));
}
pub broadcast proof fn lemma_add_empty(a: Seq<u8>, b: Seq<u8>)
    ensures #![trigger a + b] b.len() == 0 ==> a + b == a, a.len() == 0 ==> a + b == b,
{
    if b.len() == 0 { assert(a + b =~= a); }
    if a.len() == 0 { assert(a + b =~= b); }
}
pub broadcast group group_cat { lemma_assoc, lemma_add_empty, lemma_subrange_full }
pub broadcast group group_bytes {
    lemma_subrange_full,
    lemma_bev_bound_lit, lemma_vacc_bound_lit, lemma_skip_skip, lemma_skip_0, lemma_be_bytes_len_b,
    lemma_shl8_or_u16, lemma_shl8_or_u32, lemma_shl8_or_u64, lemma_shl8_or_u128, lemma_shl8_u64,
    lemma_low6, lemma_top2, lemma_one_shl, lemma_bev_update, lemma_bev_push, lemma_bev_take,
}
pub broadcast group group_u160 {
    lemma_be_bytes_front, lemma_update_skip, lemma_u128_low, lemma_u32_low, lemma_u128_shr8, lemma_u32_shr8, lemma_u128_top,
    lemma_u128_shr120, lemma_u128_mask120, lemma_shl8_or_u128_wrap,
}
} // verus!
