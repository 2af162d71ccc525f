// Trusted wrappers: std functions without a vstd specification, and the byte-stream abstraction.
use vstd::prelude::*;
use crate::vspec::*;
use crate::error;
use crate::error::Error;
verus! {

pub const ALLOC_LIMIT: usize = 0x1_0000;

// ------------------------------------------------------------------ byte streams
/// An iterator over `Result<u8>` that never yields an error: what every stream in the crate is.
pub trait ByteStream: Sized {
    spec fn bytes(&self) -> Seq<u8>;
    fn next(&mut self) -> (r: Option<error::Result<u8>>)
        ensures
            old(self).bytes().len() > 0 ==> r == Some(Ok::<u8, Error>(old(self).bytes()[0])) && final(self).bytes() == old(self).bytes().skip(1),
            old(self).bytes().len() == 0 ==> r is None && final(self).bytes() == old(self).bytes();
}
pub trait StreamClone: ByteStream {
    fn clone(&self) -> (r: Self)
        ensures r.bytes() == self.bytes();
}

/// `slice.iter().map(|x| Ok(x.clone()))`
pub struct SliceStream<'a> { data: &'a [u8], pos: usize }
impl<'a> SliceStream<'a> {
    #[verifier::type_invariant]
    spec fn inv(&self) -> bool { self.pos <= self.data@.len() }
}
impl<'a> ByteStream for SliceStream<'a> {
    closed spec fn bytes(&self) -> Seq<u8> { self.data@.skip(self.pos as int) }
    fn next(&mut self) -> (r: Option<error::Result<u8>>) {
        proof { use_type_invariant(&*self); }
        if self.pos < self.data.len() {
            let b = self.data[self.pos];
            proof { assert(self.data@.skip(self.pos as int).skip(1) =~= self.data@.skip(self.pos + 1)); }
            self.pos = self.pos + 1;
            Some(Ok(b))
        } else { None }
    }
}
impl<'a> StreamClone for SliceStream<'a> {
    fn clone(&self) -> (r: Self) {
        proof { use_type_invariant(self); }
        SliceStream { data: self.data, pos: self.pos }
    }
}
pub fn slice_stream<'a>(data: &'a [u8]) -> (r: SliceStream<'a>)
    ensures r.bytes() == data@,
{
    proof { assert(data@.skip(0) =~= data@); }
    SliceStream { data, pos: 0 }
}

/// `std::iter::Peekable<&mut T>` (trusted): the peeked element still counts as unread.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct PeekStream<'a, T: ByteStream> { inner: &'a mut T, peeked: Option<Option<error::Result<u8>>> }
impl<'a, T: ByteStream> PeekStream<'a, T> {
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<&error::Result<u8>>)
        ensures r is Some == (old(self).bytes().len() > 0), r is Some ==> *r->0 == Ok::<u8, Error>(old(self).bytes()[0]), final(self).bytes() == old(self).bytes(),
    { unimplemented!() }
}
impl<'a, T: ByteStream> ByteStream for PeekStream<'a, T> {
    uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<error::Result<u8>>) { unimplemented!() }
}
#[verifier::external_body]
pub fn peekable<'a, T: ByteStream>(s: &'a mut T) -> (r: PeekStream<'a, T>)
    ensures r.bytes() == old(s).bytes(),
{ unimplemented!() }

// ------------------------------------------------------------------ std without vstd specifications
pub assume_specification<T: Clone>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>)
    ensures r@ == s@;
pub assume_specification<T>[ <[T]>::rotate_left ](s: &mut [T], mid: usize)
    requires mid <= old(s)@.len(),
    ensures final(s)@ == old(s)@.skip(mid as int) + old(s)@.take(mid as int);
pub assume_specification<T>[ <[T]>::rotate_right ](s: &mut [T], k: usize)
    requires k <= old(s)@.len(),
    ensures final(s)@ == old(s)@.skip(old(s)@.len() - k) + old(s)@.take(old(s)@.len() - k);
pub assume_specification<T: Clone>[ <[T]>::clone_from_slice ](s: &mut [T], o: &[T])
    requires old(s)@.len() == o@.len(),
    ensures final(s)@ == o@;

pub assume_specification<T>[ <[T]>::reverse ](s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();
pub assume_specification<T: Clone>[ <[T]>::fill ](s: &mut [T], x: T)
    ensures final(s)@ == Seq::new(old(s)@.len(), |i: int| x);
pub assume_specification[ u64::div_ceil ](a: u64, b: u64) -> (r: u64)
    requires b > 0,
    ensures r == (a + b - 1) / (b as int);
pub assume_specification[ usize::div_ceil ](a: usize, b: usize) -> (r: usize)
    requires b > 0,
    ensures r == (a + b - 1) / (b as int);
pub assume_specification[ u32::div_ceil ](a: u32, b: u32) -> (r: u32)
    requires b > 0,
    ensures r == (a + b - 1) / (b as int);
pub assume_specification[ u64::abs_diff ](a: u64, b: u64) -> (r: u64)
    ensures r == if a >= b { a - b } else { b - a };
pub assume_specification[ u8::ilog2 ](a: u8) -> (r: u32)
    requires a > 0,
    ensures r + 1 == crate::vspec::bitlen(a as nat);
pub assume_specification[ u8::checked_ilog2 ](a: u8) -> (r: Option<u32>)
    ensures r is Some <==> a != 0, r is Some ==> r->0 + 1 == crate::vspec::bitlen(a as nat);
pub assume_specification[ u16::ilog2 ](a: u16) -> (r: u32)
    requires a > 0,
    ensures r + 1 == crate::vspec::bitlen(a as nat);
pub assume_specification[ u16::checked_ilog2 ](a: u16) -> (r: Option<u32>)
    ensures r is Some <==> a != 0, r is Some ==> r->0 + 1 == crate::vspec::bitlen(a as nat);
pub assume_specification[ u32::ilog2 ](a: u32) -> (r: u32)
    requires a > 0,
    ensures r + 1 == crate::vspec::bitlen(a as nat);
pub assume_specification[ u32::checked_ilog2 ](a: u32) -> (r: Option<u32>)
    ensures r is Some <==> a != 0, r is Some ==> r->0 + 1 == crate::vspec::bitlen(a as nat);
pub assume_specification[ u64::ilog2 ](a: u64) -> (r: u32)
    requires a > 0,
    ensures r + 1 == crate::vspec::bitlen(a as nat);
pub assume_specification[ u64::checked_ilog2 ](a: u64) -> (r: Option<u32>)
    ensures r is Some <==> a != 0, r is Some ==> r->0 + 1 == crate::vspec::bitlen(a as nat);
pub assume_specification<T>[ Option::<T>::or ](a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == if a is Some { a } else { b };
pub assume_specification<T: Copy>[ Option::<&T>::copied ](a: Option<&T>) -> (r: Option<T>)
    ensures r == (match a { Some(x) => Some(*x), None => None });
pub assume_specification<T, U, F: FnOnce(T) -> U>[ Option::<T>::map_or ](a: Option<T>, d: U, f: F) -> (r: U)
    requires a is Some ==> f.requires((a->0,)),
    ensures a is Some ==> f.ensures((a->0,), r), a is None ==> r == d;
pub assume_specification<T, F: FnOnce(T) -> bool>[ Option::<T>::is_some_and ](a: Option<T>, f: F) -> (r: bool)
    requires a is Some ==> f.requires((a->0,)),
    ensures a is Some ==> f.ensures((a->0,), r), a is None ==> !r;
pub assume_specification<T, F: FnOnce() -> Option<T>>[ Option::<T>::or_else ](a: Option<T>, f: F) -> (r: Option<T>)
    requires a is None ==> f.requires(()),
    ensures a is Some ==> r == a, a is None ==> f.ensures((), r);
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>>[ Result::<T, E>::and_then ](a: Result<T, E>, f: F) -> (r: Result<U, E>)
    requires a is Ok ==> f.requires((a->Ok_0,)),
    ensures a is Ok ==> f.ensures((a->Ok_0,), r), a is Err ==> r == Err::<U, E>(a->Err_0);
pub assume_specification<T, E, U, F: FnOnce(E) -> Result<T, U>>[ Result::<T, E>::or_else ](a: Result<T, E>, f: F) -> (r: Result<T, U>)
    requires a is Err ==> f.requires((a->Err_0,)),
    ensures a is Err ==> f.ensures((a->Err_0,), r), a is Ok ==> r == Ok::<T, U>(a->Ok_0);
pub assume_specification<T>[ std::mem::replace ](a: &mut T, b: T) -> (r: T)
    ensures r == *old(a), *final(a) == b;
pub assume_specification<T>[ bool::then_some ](a: bool, b: T) -> (r: Option<T>)
    ensures r == if a { Some(b) } else { None };

/// `v.extend(x)` for a vector, slice, array or slice iterator `x`
pub trait SeqArg<T> { spec fn seq(self) -> Seq<T>; fn push_all(self, v: &mut Vec<T>) ensures final(v)@ == old(v)@ + self.seq(); }
impl<T> SeqArg<T> for Vec<T> { open spec fn seq(self) -> Seq<T> { self@ } #[verifier::external_body] fn push_all(self, v: &mut Vec<T>) { v.extend(self) } }
impl<'a, T: Copy> SeqArg<T> for &'a Vec<T> { open spec fn seq(self) -> Seq<T> { self@ } #[verifier::external_body] fn push_all(self, v: &mut Vec<T>) { v.extend(self) } }
impl<'a, T: Copy> SeqArg<T> for &'a [T] { open spec fn seq(self) -> Seq<T> { self@ } #[verifier::external_body] fn push_all(self, v: &mut Vec<T>) { v.extend(self) } }
impl<'a, T: Copy, const N: usize> SeqArg<T> for &'a [T; N] { open spec fn seq(self) -> Seq<T> { self@ } #[verifier::external_body] fn push_all(self, v: &mut Vec<T>) { v.extend(self) } }
impl<T, const N: usize> SeqArg<T> for [T; N] { open spec fn seq(self) -> Seq<T> { self@ } #[verifier::external_body] fn push_all(self, v: &mut Vec<T>) { v.extend(self) } }
pub trait VecExtend<T> { spec fn vseq(&self) -> Seq<T>; fn extend_<S: SeqArg<T>>(&mut self, s: S) ensures final(self).vseq() == old(self).vseq() + s.seq(); }
impl<T> VecExtend<T> for Vec<T> { open spec fn vseq(&self) -> Seq<T> { self@ } fn extend_<S: SeqArg<T>>(&mut self, s: S) { s.push_all(self) } }

/// `slice.try_into()` into an array: exactly the slices of that length convert.
#[verifier::external_body]
pub fn slice_to_array<const N: usize>(s: &[u8]) -> (r: Result<[u8; N], ()>)
    ensures s@.len() == N ==> r is Ok && r->Ok_0@ == s@, s@.len() != N ==> r is Err
{ s.try_into().map_err(|_| ()) }

/// A vector of bytes never exceeds isize::MAX bytes (guaranteed by std).
pub broadcast axiom fn axiom_vec_len(v: Vec<u8>)
    ensures #[trigger] v@.len() <= isize::MAX;
/// Neither does a slice.
pub broadcast axiom fn axiom_slice_len(v: &[u8])
    ensures #[trigger] v@.len() <= isize::MAX;

pub trait VBytes: Sized {
    type Arr;
    spec fn arr(a: Self::Arr) -> Seq<u8>;
    spec fn val(self) -> nat;
    spec fn width() -> nat;
    fn to_be_bytes_(self) -> (r: Self::Arr)
        ensures Self::arr(r) == be_bytes(self.val(), Self::width());
    fn from_be_bytes_(a: Self::Arr) -> (r: Self)
        ensures r.val() == be(Self::arr(a));
}
impl VBytes for u8 {
    type Arr = [u8; 1];
    open spec fn arr(a: [u8; 1]) -> Seq<u8> { a@ }
    open spec fn val(self) -> nat { self as nat }
    open spec fn width() -> nat { 1 }
    #[verifier::external_body] fn to_be_bytes_(self) -> [u8; 1] { self.to_be_bytes() }
    #[verifier::external_body] fn from_be_bytes_(a: [u8; 1]) -> u8 { u8::from_be_bytes(a) }
}
impl VBytes for u16 {
    type Arr = [u8; 2];
    open spec fn arr(a: [u8; 2]) -> Seq<u8> { a@ }
    open spec fn val(self) -> nat { self as nat }
    open spec fn width() -> nat { 2 }
    #[verifier::external_body] fn to_be_bytes_(self) -> [u8; 2] { self.to_be_bytes() }
    #[verifier::external_body] fn from_be_bytes_(a: [u8; 2]) -> u16 { u16::from_be_bytes(a) }
}
impl VBytes for u32 {
    type Arr = [u8; 4];
    open spec fn arr(a: [u8; 4]) -> Seq<u8> { a@ }
    open spec fn val(self) -> nat { self as nat }
    open spec fn width() -> nat { 4 }
    #[verifier::external_body] fn to_be_bytes_(self) -> [u8; 4] { self.to_be_bytes() }
    #[verifier::external_body] fn from_be_bytes_(a: [u8; 4]) -> u32 { u32::from_be_bytes(a) }
}
impl VBytes for u64 {
    type Arr = [u8; 8];
    open spec fn arr(a: [u8; 8]) -> Seq<u8> { a@ }
    open spec fn val(self) -> nat { self as nat }
    open spec fn width() -> nat { 8 }
    #[verifier::external_body] fn to_be_bytes_(self) -> [u8; 8] { self.to_be_bytes() }
    #[verifier::external_body] fn from_be_bytes_(a: [u8; 8]) -> u64 { u64::from_be_bytes(a) }
}
impl VBytes for u128 {
    type Arr = [u8; 16];
    open spec fn arr(a: [u8; 16]) -> Seq<u8> { a@ }
    open spec fn val(self) -> nat { self as nat }
    open spec fn width() -> nat { 16 }
    #[verifier::external_body] fn to_be_bytes_(self) -> [u8; 16] { self.to_be_bytes() }
    #[verifier::external_body] fn from_be_bytes_(a: [u8; 16]) -> u128 { u128::from_be_bytes(a) }
}

// ------------------------------------------------------------------ allocation driven by received lengths
pub fn vec_with_capacity<T>(n: usize, bound: Ghost<int>) -> (r: Vec<T>)
    requires n <= bound@,
    ensures r@ == Seq::<T>::empty(),
{
    Vec::with_capacity(n)
}
#[verifier::external_body]
pub fn vec_reserve<T>(v: &mut Vec<T>, n: usize, bound: Ghost<int>)
    requires n <= bound@,
    ensures final(v)@ == old(v)@,
{
    v.reserve(n)
}
pub fn vec_repeat(x: u8, n: usize, bound: Ghost<int>) -> (r: Vec<u8>)
    requires n <= bound@,
    ensures r@ == Seq::new(n as nat, |i: int| x),
{
    let r = vec![x; n];
    proof { assert(r@ =~= Seq::new(n as nat, |i: int| x)); }
    r
}

// ------------------------------------------------------------------ `&mut x[..]`
pub trait FullMut<T> {
    spec fn full(&self) -> Seq<T>;
    fn full_mut(&mut self) -> (r: &mut [T])
        ensures r@ == old(self).full(), final(self).full() == final(r)@;
}
impl<T> FullMut<T> for Vec<T> {
    open spec fn full(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn full_mut(&mut self) -> (r: &mut [T]) { &mut self[..] }
}
impl<T> FullMut<T> for [T] {
    open spec fn full(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn full_mut(&mut self) -> (r: &mut [T]) { &mut self[..] }
}
impl<T, const N: usize> FullMut<T> for [T; N] {
    open spec fn full(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn full_mut(&mut self) -> (r: &mut [T]) { &mut self[..] }
}

// ------------------------------------------------------------------ concatenation
pub fn concat1(a: &[u8]) -> (r: Vec<u8>) ensures r@ == a@ { a.to_vec() }
pub fn concat2(a: &[u8], b: &[u8]) -> (r: Vec<u8>) ensures r@ == a@ + b@ {
    let mut v = a.to_vec(); v.extend_from_slice(b); proof { assert(v@ =~= a@ + b@); } v
}
pub fn concat3(a: &[u8], b: &[u8], c: &[u8]) -> (r: Vec<u8>) ensures r@ == a@ + b@ + c@ {
    let mut v = concat2(a, b); v.extend_from_slice(c); proof { assert(v@ =~= a@ + b@ + c@); } v
}
pub fn concat4(a: &[u8], b: &[u8], c: &[u8], d: &[u8]) -> (r: Vec<u8>) ensures r@ == a@ + b@ + c@ + d@ {
    let mut v = concat3(a, b, c); v.extend_from_slice(d); proof { assert(v@ =~= a@ + b@ + c@ + d@); } v
}
pub fn concat5(a: &[u8], b: &[u8], c: &[u8], d: &[u8], e: &[u8]) -> (r: Vec<u8>) ensures r@ == a@ + b@ + c@ + d@ + e@ {
    let mut v = concat4(a, b, c, d); v.extend_from_slice(e); proof { assert(v@ =~= a@ + b@ + c@ + d@ + e@); } v
}
pub fn concat6(a: &[u8], b: &[u8], c: &[u8], d: &[u8], e: &[u8], f: &[u8]) -> (r: Vec<u8>) ensures r@ == a@ + b@ + c@ + d@ + e@ + f@ {
    let mut v = concat5(a, b, c, d, e); v.extend_from_slice(f); proof { assert(v@ =~= a@ + b@ + c@ + d@ + e@ + f@); } v
}
pub fn concat7(a: &[u8], b: &[u8], c: &[u8], d: &[u8], e: &[u8], f: &[u8], g: &[u8]) -> (r: Vec<u8>) ensures r@ == a@ + b@ + c@ + d@ + e@ + f@ + g@ {
    let mut v = concat6(a, b, c, d, e, f); v.extend_from_slice(g); proof { assert(v@ =~= a@ + b@ + c@ + d@ + e@ + f@ + g@); } v
}
pub fn concat8(a: &[u8], b: &[u8], c: &[u8], d: &[u8], e: &[u8], f: &[u8], g: &[u8], h: &[u8]) -> (r: Vec<u8>) ensures r@ == a@ + b@ + c@ + d@ + e@ + f@ + g@ + h@ {
    let mut v = concat7(a, b, c, d, e, f, g); v.extend_from_slice(h); proof { assert(v@ =~= a@ + b@ + c@ + d@ + e@ + f@ + g@ + h@); } v
}

pub open spec fn flat(s: Seq<Vec<u8>>) -> Seq<u8>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last()@ }
}
/// the bytes held by an accumulator: a list of bytes, or a list of byte strings yet to be joined
pub trait FlatV { spec fn fv(&self) -> Seq<u8>; }
impl FlatV for Vec<u8> { open spec fn fv(&self) -> Seq<u8> { self@ } }
impl FlatV for Vec<Vec<u8>> { open spec fn fv(&self) -> Seq<u8> { flat(self@) } }

#[verifier::external_body]
pub fn flatten_vecs(v: Vec<Vec<u8>>) -> (r: Vec<u8>)
    ensures r@ == flat(v@),
{
    v.into_iter().flatten().collect()
}
pub open spec fn fv<A: FlatV>(a: A) -> Seq<u8> { a.fv() }
pub trait VecsV: Sized { spec fn vecs(&self) -> Seq<Vec<u8>>; fn concat__(&self) -> (r: Vec<u8>) ensures r@ == flat(self.vecs()); }
impl<const N: usize> VecsV for [Vec<u8>; N] {
    open spec fn vecs(&self) -> Seq<Vec<u8>> { self@ }
    #[verifier::external_body]
    fn concat__(&self) -> (r: Vec<u8>) { self.concat() }
}
impl VecsV for Vec<Vec<u8>> {
    open spec fn vecs(&self) -> Seq<Vec<u8>> { self@ }
    #[verifier::external_body]
    fn concat__(&self) -> (r: Vec<u8>) { self.concat() }
}
pub fn concat_vecs<V: VecsV>(v: &V) -> (r: Vec<u8>)
    ensures r@ == flat(v.vecs()),
{
    v.concat__()
}

// ------------------------------------------------------------------ iteration helpers
pub fn chunks_len(v: &[u8], n: usize) -> (r: usize)
    requires n > 0,
    ensures r == (v@.len() + n - 1) / (n as int), n == 4 ==> r <= v@.len() / 4 + 1,
{
    let k = v.len();
    if k % n == 0 {
        proof { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k as int, n as int);
            assert((k + n - 1) / n as int == k / n) by (nonlinear_arith) requires k % n == 0, n > 0, k == n * (k / n) + (k % n); }
        k / n
    } else {
        proof {
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k as int, n as int);
            assert((k + n - 1) / n as int == k / n + 1) by (nonlinear_arith) requires 0 < k % n, k % n < n, n > 0, k == n * (k / n) + (k % n);
            assert(k / n + 1 <= usize::MAX) by (nonlinear_arith) requires k as int == (n as int) * (k / n) + (k % n), 0 < k % n, n > 0, k <= usize::MAX, k / n >= 0;
        }
        k / n + 1
    }
}
pub fn chunks_exact_len(v: &[u8], n: usize) -> (r: usize)
    requires n > 0,
    ensures r == v@.len() / (n as nat),
{
    v.len() / n
}
#[verifier::external_body]
pub fn chunk<'a>(v: &'a [u8], n: usize, k: usize) -> (r: &'a [u8])
    requires n > 0, k * n < v@.len(),
    ensures r@ == v@.subrange(k * n, if k * n + n <= v@.len() { k * n + n } else { v@.len() as int }),
{
    v.chunks(n).nth(k).unwrap()
}
pub fn sat_sub(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a - b } else { 0 } { if a >= b { a - b } else { 0 } }
pub fn min_(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }

// ------------------------------------------------------------------ panics are proof obligations
#[verifier::external_body]
pub fn verif_panic<T>() -> (r: T)
    requires false,
{
    panic!()
}
/// the unfinished rest of a function (`todo!()` in the code under verification): nothing happens after it
#[verifier::external_body]
pub fn unfinished<T>() -> (r: T)
    ensures false,
{
    panic!()
}
pub fn verif_assert(b: bool)
    requires b,
{
}
} // verus!
