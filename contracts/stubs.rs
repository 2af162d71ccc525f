// Assumed contracts of the dependencies: openssl, hkdf, sha2, and the parts of std that routing uses.
// Every function here is trusted (listed in DESIGN.md and in each evidence file).
use vstd::prelude::*;
verus! {
// ------------------------------------------------------------------ primitives, uninterpreted
/// AES-128-GCM: keystream encryption, its inverse and the 16-byte tag
pub uninterp spec fn gcm_ct(key: Seq<u8>, iv: Seq<u8>, pt: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn gcm_pt(key: Seq<u8>, iv: Seq<u8>, ct: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn gcm_tag(key: Seq<u8>, iv: Seq<u8>, aad: Seq<u8>, ct: Seq<u8>) -> Seq<u8>;
/// AES-128 on one block
pub uninterp spec fn aes_block(key: Seq<u8>, block: Seq<u8>) -> Seq<u8>;
/// HKDF with SHA-256 (RFC 5869)
pub uninterp spec fn hkdf_extract(salt: Seq<u8>, ikm: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn hkdf_expand(prk: Seq<u8>, info: Seq<u8>, len: nat) -> Seq<u8>;

/// decryption inverts encryption; lengths
pub axiom fn axiom_gcm(key: Seq<u8>, iv: Seq<u8>, aad: Seq<u8>, m: Seq<u8>)
    ensures
        gcm_ct(key, iv, m).len() == m.len(), gcm_pt(key, iv, m).len() == m.len(),
        gcm_pt(key, iv, gcm_ct(key, iv, m)) == m, gcm_tag(key, iv, aad, m).len() == 16;
pub axiom fn axiom_aes(key: Seq<u8>, block: Seq<u8>)
    ensures aes_block(key, block).len() == 16;
pub axiom fn axiom_hkdf(a: Seq<u8>, b: Seq<u8>, n: nat)
    ensures hkdf_extract(a, b).len() == 32, hkdf_expand(a, b, n).len() == n;

impl vstd::std_specs::convert::FromSpecImpl<u64> for crate::utils::U160 {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: u64) -> crate::utils::U160 { arbitrary() }
}

pub mod openssl {
    pub mod symm {
        use vstd::prelude::*;
        use super::super::*;
        #[derive(Clone, Copy)]
        pub enum Cipher { Gcm128, Ecb128 }
        #[derive(Debug)] pub struct ErrorStack {}
        impl Cipher {
            #[verifier::external_body]
            pub fn aes_128_gcm() -> (r: Cipher) ensures r == Cipher::Gcm128 { unimplemented!() }
            #[verifier::external_body]
            pub fn aes_128_ecb() -> (r: Cipher) ensures r == Cipher::Ecb128 { unimplemented!() }
        }
        #[verifier::external_body]
        pub fn encrypt_aead(c: Cipher, key: &[u8], iv: Option<&[u8]>, aad: &[u8], data: &[u8], tag: &mut [u8]) -> (r: Result<Vec<u8>, ErrorStack>)
            requires key@.len() == 16, c is Gcm128 ==> iv is Some,
            ensures
                final(tag)@.len() == old(tag)@.len(),
                c is Gcm128 && iv->0@.len() == 12 && old(tag)@.len() == 16 ==> r is Ok && r->Ok_0@ == gcm_ct(key@, iv->0@, data@)
                    && final(tag)@ == gcm_tag(key@, iv->0@, aad@, gcm_ct(key@, iv->0@, data@)),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn decrypt_aead(c: Cipher, key: &[u8], iv: Option<&[u8]>, aad: &[u8], data: &[u8], tag: &[u8]) -> (r: Result<Vec<u8>, ErrorStack>)
            requires key@.len() == 16, c is Gcm128 ==> iv is Some,
            ensures
                c is Gcm128 && iv->0@.len() == 12 && tag@.len() == 16 ==> (r is Ok <==> tag@ == gcm_tag(key@, iv->0@, aad@, data@))
                    && (r is Ok ==> r->Ok_0@ == gcm_pt(key@, iv->0@, data@)),
        { unimplemented!() }
        /// block ciphers pad: one 16-byte block gives two
        #[verifier::external_body]
        pub fn encrypt(c: Cipher, key: &[u8], iv: Option<&[u8]>, data: &[u8]) -> (r: Result<Vec<u8>, ErrorStack>)
            requires key@.len() == 16,
            ensures
                c is Ecb128 && iv is None && data@.len() == 16 ==> r is Ok && r->Ok_0@.len() == 32 && r->Ok_0@.take(16) == aes_block(key@, data@),
        { unimplemented!() }
    }
    pub mod rand {
        use vstd::prelude::*;
        #[derive(Debug)] pub struct ErrorStack {}
        #[verifier::external_body]
        pub fn rand_bytes(b: &mut [u8]) -> (r: Result<(), ErrorStack>)
            ensures r is Ok, final(b)@.len() == old(b)@.len(),
        { unimplemented!() }
    }
}
pub mod sha2 { pub struct Sha256 {} }
pub mod hkdf {
    use vstd::prelude::*;
    use super::*;
    #[derive(Debug)] pub struct InvalidPrkLength {}
    #[derive(Debug)] pub struct InvalidLength {}
    #[verifier::reject_recursive_types(H)]
    pub struct Hkdf<H> { pub prk: Ghost<Seq<u8>>, pub h: core::marker::PhantomData<H> }
    impl<H> Hkdf<H> {
        #[verifier::external_body]
        pub fn extract(salt: Option<&[u8]>, ikm: &[u8]) -> (r: ([u8; 32], Hkdf<H>))
            ensures salt is Some ==> r.0@ == hkdf_extract(salt->0@, ikm@), r.1.prk@ == r.0@,
        { unimplemented!() }
        #[verifier::external_body]
        pub fn from_prk(prk: &[u8]) -> (r: Result<Hkdf<H>, InvalidPrkLength>)
            ensures r is Ok <==> prk@.len() >= 32, r is Ok ==> r->Ok_0.prk@ == prk@,
        { unimplemented!() }
        #[verifier::external_body]
        pub fn expand(&self, info: &[u8], okm: &mut [u8]) -> (r: Result<(), InvalidLength>)
            ensures
                final(okm)@.len() == old(okm)@.len(),
                r is Ok <==> old(okm)@.len() <= 255 * 32,
                r is Ok ==> final(okm)@ == hkdf_expand(self.prk@, info@, old(okm)@.len()),
        { unimplemented!() }
    }
}

// ------------------------------------------------------------------ std
pub mod stdx {
    pub mod io {
        #[derive(Debug)] pub struct Error {}
        pub type Result<T> = core::result::Result<T, Error>;
    }
    pub mod net {
        use vstd::prelude::*;
        pub struct Ipv4Addr { pub o: [u8; 4] }
        impl Ipv4Addr { pub fn octets(&self) -> (r: [u8; 4]) ensures r == self.o { self.o } }
        pub struct Ipv6Addr { pub o: [u8; 16] }
        impl Ipv6Addr { pub fn octets(&self) -> (r: [u8; 16]) ensures r == self.o { self.o } }
        pub struct SocketAddr { pub a: u64 }
        pub trait ToSocketAddrs {}
        impl UdpSocket {
            #[verifier::external_body]
            pub fn bind<A: ToSocketAddrs>(a: A) -> (r: super::io::Result<UdpSocket>) ensures r is Ok ==> r->Ok_0.got@.len() == 0 { unimplemented!() }
        }
        /// `got` is the history of received datagrams, `errs` counts failed receives
        pub struct UdpSocket { pub got: Ghost<Seq<Seq<u8>>>, pub errs: Ghost<nat> }
        impl UdpSocket {
            #[verifier::external_body]
            /// a datagram longer than the buffer is cut by the system: up to 4096 bytes must fit
            pub fn recv_from(&mut self, buf: &mut [u8]) -> (r: super::io::Result<(usize, SocketAddr)>)
                requires old(buf)@.len() >= 4096,
                ensures
                    final(buf)@.len() == old(buf)@.len(),
                    r is Ok ==> r->Ok_0.0 <= old(buf)@.len() && final(self).got@ == old(self).got@.push(final(buf)@.take(r->Ok_0.0 as int)) && final(self).errs@ == old(self).errs@,
                    r is Err ==> final(self).got@ == old(self).got@ && final(self).errs@ == old(self).errs@ + 1,
            { unimplemented!() }
        }
    }
    pub mod collections {
        use vstd::prelude::*;
        /// the map as a mathematical map; `get` lends its entry
        #[verifier::reject_recursive_types(K)]
        #[verifier::reject_recursive_types(V)]
        pub struct HashMap<K, V> { pub m: Ghost<Map<K, V>>, pub p: core::marker::PhantomData<(K, V)> }
        impl<K, V> HashMap<K, V> {
            #[verifier::external_body]
            pub fn new() -> (r: Self) ensures r.m@ == Map::<K, V>::empty() { unimplemented!() }
            #[verifier::external_body]
            pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self.m@.contains_key(*k) { unimplemented!() }
            #[verifier::external_body]
            pub fn get(&mut self, k: &K) -> (r: Option<&mut V>)
                ensures
                    r is Some <==> old(self).m@.contains_key(*k),
                    r is Some ==> *r->0 == old(self).m@[*k] && final(self).m@ == old(self).m@.insert(*k, *final(r->0)),
                    r is None ==> final(self).m@ == old(self).m@,
            { unimplemented!() }
            #[verifier::external_body]
            pub fn remove(&mut self, k: &K) -> (r: Option<V>)
                ensures final(self).m@ == old(self).m@.remove(*k), r is Some <==> old(self).m@.contains_key(*k),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
                ensures final(self).m@ == old(self).m@.insert(k, v),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn clear(&mut self) ensures final(self).m@ == Map::<K, V>::empty() { unimplemented!() }
        }
    }
    pub mod sync {
        use vstd::prelude::*;
        /// Locks in the sequential view of one critical section: the guard is a mutable borrow.
        pub struct LockResult<G> { pub g: G }
        impl<G> LockResult<G> { pub fn unwrap(self) -> (r: G) ensures r == self.g { self.g } }
        /// only so that imports resolve: the extraction replaces Arc<T> by T
        pub struct Arc<T> { pub v: T }
        pub struct RwLock<T> { pub v: T }
        impl<T> RwLock<T> {
            pub fn new(v: T) -> (r: Self) ensures r.v == v { RwLock { v } }
            pub fn read<'a>(&'a mut self) -> (r: LockResult<&'a mut T>)
                ensures *r.g == old(self).v, *final(r.g) == final(self).v,
            { LockResult { g: &mut self.v } }
            pub fn write<'a>(&'a mut self) -> (r: LockResult<&'a mut T>)
                ensures *r.g == old(self).v, *final(r.g) == final(self).v,
            { LockResult { g: &mut self.v } }
        }
        pub struct Mutex<T> { pub v: T }
        impl<T> Mutex<T> {
            pub fn new(v: T) -> (r: Self) ensures r.v == v { Mutex { v } }
            pub fn lock<'a>(&'a mut self) -> (r: LockResult<&'a mut T>)
                ensures *r.g == old(self).v, *final(r.g) == final(self).v,
            { LockResult { g: &mut self.v } }
        }
        pub mod mpsc {
            use vstd::prelude::*;
            #[derive(Debug)] pub struct SendError {}
            #[derive(Debug)] pub struct RecvError {}
            /// `sent` is the history of this channel
            #[verifier::reject_recursive_types(T)]
            pub struct Sender<T> { pub sent: Ghost<Seq<T>>, pub open: bool, pub p: core::marker::PhantomData<T> }
            #[verifier::reject_recursive_types(T)]
            pub struct Receiver<T> { pub p: core::marker::PhantomData<T> }
            impl<T> Sender<T> {
                #[verifier::external_body]
                pub fn send(&mut self, t: T) -> (r: Result<(), SendError>)
                    ensures
                        r is Ok <==> old(self).open,
                        r is Ok ==> *final(self) == (Sender { sent: Ghost(old(self).sent@.push(t)), ..*old(self) }),
                        r is Err ==> *final(self) == *old(self),
                { unimplemented!() }
            }
            #[verifier::external_body]
            pub fn channel<T>() -> (r: (Sender<T>, Receiver<T>)) ensures r.0.sent@ == Seq::<T>::empty(), r.0.open { unimplemented!() }
        }
    }
}
} // verus!
