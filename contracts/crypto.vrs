verus! {
// ---- AES-128-CBC (crates aes, cbc): uninterpreted, with the one law the format needs ----------
pub mod cbc {
use vstd::prelude::*;
pub uninterp spec fn cbc_enc(key: Seq<u8>, iv: Seq<u8>, data: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn cbc_dec(key: Seq<u8>, iv: Seq<u8>, data: Seq<u8>) -> Seq<u8>;

pub broadcast axiom fn axiom_cbc_dec_len(key: Seq<u8>, iv: Seq<u8>, data: Seq<u8>)
    requires data.len() % 16 == 0,
    ensures #[trigger] cbc_dec(key, iv, data).len() == data.len();
pub broadcast axiom fn axiom_cbc_enc_len(key: Seq<u8>, iv: Seq<u8>, data: Seq<u8>)
    requires data.len() % 16 == 0,
    ensures #[trigger] cbc_enc(key, iv, data).len() == data.len();
pub broadcast axiom fn axiom_cbc_inverse(key: Seq<u8>, iv: Seq<u8>, data: Seq<u8>)
    requires data.len() % 16 == 0,
    ensures cbc_dec(key, iv, #[trigger] cbc_enc(key, iv, data)) == data;
/// an IV given as sixteen zero bytes is the zero IV
pub broadcast proof fn lemma_zero_iv(key: Seq<u8>, iv: Seq<u8>, data: Seq<u8>)
    requires iv.len() == 16, forall|i: int| 0 <= i < 16 ==> iv[i] == 0u8,
    ensures #[trigger] cbc_enc(key, iv, data) == cbc_enc(key, zeros(16), data),
{
    assert(iv =~= zeros(16));
}
pub open spec fn zeros(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }

// ---- SHA-1 (crate sha1): uninterpreted
pub uninterp spec fn sha1(d: Seq<u8>) -> Seq<u8>;
pub broadcast axiom fn axiom_sha1_len(d: Seq<u8>)
    ensures #[trigger] sha1(d).len() == 20;
}
pub use cbc::*;
broadcast use {cbc::axiom_cbc_dec_len, cbc::axiom_cbc_enc_len, cbc::axiom_cbc_inverse, cbc::axiom_sha1_len, cbc::lemma_zero_iv};

pub trait AsBytes {
    spec fn bytes(&self) -> Seq<u8>;
}
impl AsBytes for [u8] { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl<const N: usize> AsBytes for [u8; N] { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl AsBytes for Vec<u8> { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl<T: AsBytes + ?Sized> AsBytes for &T { open spec fn bytes(&self) -> Seq<u8> { (**self).bytes() } }

pub struct NoPadding {}
#[derive(Debug)]
pub struct UnpadError {}
pub struct Aes128CbcDec { pub key: Ghost<Seq<u8>>, pub iv: Ghost<Seq<u8>> }
pub struct Aes128CbcEnc { pub key: Ghost<Seq<u8>>, pub iv: Ghost<Seq<u8>> }
impl Aes128CbcDec {
    /// the conversions of the arguments to 16-byte arrays panic on any other length
    #[verifier::external_body]
    pub fn new<K: AsBytes + ?Sized, I: AsBytes + ?Sized>(key: &K, iv: &I) -> (r: Self)
        requires key.bytes().len() == 16, iv.bytes().len() == 16,
        ensures r.key@ == key.bytes(), r.iv@ == iv.bytes(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn decrypt_padded_mut<P>(self, buf: &mut [u8]) -> (r: Result<(), UnpadError>)
        ensures
            final(buf)@.len() == old(buf)@.len(),
            old(buf)@.len() % 16 == 0 ==> r is Ok && final(buf)@ == cbc_dec(self.key@, self.iv@, old(buf)@),
    { unimplemented!() }
}
impl Aes128CbcDec {
    #[verifier::external_body]
    pub fn decrypt_padded_b2b_mut<P>(self, input: &[u8], out: &mut [u8]) -> (r: Result<(), UnpadError>)
        ensures
            final(out)@.len() == old(out)@.len(),
            input@.len() == old(out)@.len() && input@.len() % 16 == 0 ==> r is Ok && final(out)@ == cbc_dec(self.key@, self.iv@, input@),
    { unimplemented!() }
}
impl Aes128CbcEnc {
    #[verifier::external_body]
    pub fn encrypt_padded_b2b_mut<P>(self, input: &[u8], out: &mut [u8]) -> (r: Result<(), UnpadError>)
        ensures
            final(out)@.len() == old(out)@.len(),
            input@.len() == old(out)@.len() && input@.len() % 16 == 0 ==> r is Ok && final(out)@ == cbc_enc(self.key@, self.iv@, input@),
    { unimplemented!() }
}
impl Aes128CbcEnc {
    #[verifier::external_body]
    pub fn new<K: AsBytes + ?Sized, I: AsBytes + ?Sized>(key: &K, iv: &I) -> (r: Self)
        requires key.bytes().len() == 16, iv.bytes().len() == 16,
        ensures r.key@ == key.bytes(), r.iv@ == iv.bytes(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn encrypt_padded_mut<P>(self, buf: &mut [u8], n: usize) -> (r: Result<(), UnpadError>)
        ensures
            final(buf)@.len() == old(buf)@.len(),
            n == old(buf)@.len() && old(buf)@.len() % 16 == 0 ==> r is Ok && final(buf)@ == cbc_enc(self.key@, self.iv@, old(buf)@),
    { unimplemented!() }
}
pub struct Sha1 { pub acc: Ghost<Seq<u8>> }
impl Sha1 {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.acc@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn reset(&mut self) ensures final(self).acc@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn update<D: AsBytes>(&mut self, d: D)
        ensures final(self).acc@ == old(self).acc@ + d.bytes() { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize(self) -> (r: [u8; 20])
        ensures r@ == sha1(self.acc@) { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize_reset(&mut self) -> (r: [u8; 20])
        ensures r@ == sha1(old(self).acc@), final(self).acc@ == Seq::<u8>::empty() { unimplemented!() }
}
} // verus!
