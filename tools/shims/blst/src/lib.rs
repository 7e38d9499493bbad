//! Stand-in for `blst`: a toy keyed-hash scheme with the same interface (aggregation is XOR).
#[allow(non_camel_case_types)]
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BLST_ERROR {
    BLST_SUCCESS,
    BLST_BAD_ENCODING,
    BLST_POINT_NOT_ON_CURVE,
    BLST_POINT_NOT_IN_GROUP,
    BLST_AGGR_TYPE_MISMATCH,
    BLST_VERIFY_FAIL,
    BLST_PK_IS_INFINITY,
    BLST_BAD_SCALAR,
}
pub mod min_pk {
    use super::BLST_ERROR::{self, *};
    use sha2::{Digest, Sha256};
    fn stretch(n: usize, parts: &[&[u8]]) -> Vec<u8> {
        let mut out = vec![];
        let mut k = 0u8;
        while out.len() < n {
            let mut h = Sha256::new();
            h.update([k]);
            for p in parts {
                h.update((p.len() as u64).to_le_bytes());
                h.update(p);
            }
            out.extend_from_slice(&h.finalize());
            k += 1;
        }
        out.truncate(n);
        out
    }
    #[derive(Clone, Debug, Default, PartialEq, Eq)]
    pub struct SecretKey([u8; 32]);
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct PublicKey([u8; 48]);
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Signature([u8; 96]);
    pub struct AggregateSignature([u8; 96]);
    pub struct AggregatePublicKey([u8; 48]);
    impl SecretKey {
        pub fn from_bytes(b: &[u8]) -> Result<Self, BLST_ERROR> {
            let a: [u8; 32] = b.try_into().map_err(|_| BLST_BAD_ENCODING)?;
            if a == [0; 32] { Err(BLST_BAD_ENCODING) } else { Ok(Self(a)) }
        }
        pub fn key_gen(ikm: &[u8], info: &[u8]) -> Result<Self, BLST_ERROR> {
            if ikm.len() < 32 { return Err(BLST_BAD_ENCODING); }
            Self::from_bytes(&stretch(32, &[ikm, info]))
        }
        pub fn derive_master_eip2333(ikm: &[u8]) -> Result<Self, BLST_ERROR> {
            if ikm.len() < 32 { return Err(BLST_BAD_ENCODING); }
            Self::from_bytes(&stretch(32, &[b"master", ikm]))
        }
        pub fn derive_child_eip2333(&self, i: u32) -> Self { Self::from_bytes(&stretch(32, &[&self.0, &i.to_be_bytes()])).unwrap() }
        pub fn sk_to_pk(&self) -> PublicKey {
            let mut b: [u8; 48] = stretch(48, &[b"pk", &self.0]).try_into().unwrap();
            b[0] = 0x80;
            PublicKey(b)
        }
        pub fn sign(&self, msg: &[u8], dst: &[u8], _aug: &[u8]) -> Signature { Signature(sig(&self.sk_to_pk(), msg, dst)) }
        pub fn to_bytes(&self) -> [u8; 32] { self.0 }
    }
    fn sig(pk: &PublicKey, msg: &[u8], dst: &[u8]) -> [u8; 96] {
        let mut b: [u8; 96] = stretch(96, &[b"sig", &pk.0, msg, dst]).try_into().unwrap();
        b[0] = 0x80;
        b
    }
    fn xor<const N: usize>(a: &mut [u8; N], b: &[u8; N]) {
        for i in 1..N { a[i] ^= b[i]; }
    }
    impl PublicKey {
        pub fn key_validate(b: &[u8]) -> Result<Self, BLST_ERROR> {
            let a: [u8; 48] = b.try_into().map_err(|_| BLST_BAD_ENCODING)?;
            if a[0] == 0xc0 { return Err(BLST_PK_IS_INFINITY); }
            if a[0] & 0x80 == 0 { return Err(BLST_BAD_ENCODING); }
            Ok(Self(a))
        }
        pub fn to_bytes(&self) -> [u8; 48] { self.0 }
    }
    impl Signature {
        pub fn from_bytes(b: &[u8]) -> Result<Self, BLST_ERROR> {
            let a: [u8; 96] = b.try_into().map_err(|_| BLST_BAD_ENCODING)?;
            if a[0] & 0x80 == 0 { return Err(BLST_BAD_ENCODING); }
            Ok(Self(a))
        }
        pub fn to_bytes(&self) -> [u8; 96] { self.0 }
        pub fn verify(&self, _g: bool, msg: &[u8], dst: &[u8], _a: &[u8], pk: &PublicKey, _v: bool) -> BLST_ERROR { self.fast_aggregate_verify(true, msg, dst, &[pk]) }
        pub fn fast_aggregate_verify(&self, g: bool, msg: &[u8], dst: &[u8], pks: &[&PublicKey]) -> BLST_ERROR {
            let msgs: Vec<&[u8]> = pks.iter().map(|_| msg).collect();
            self.aggregate_verify(g, &msgs, dst, pks, true)
        }
        pub fn aggregate_verify(&self, _g: bool, msgs: &[&[u8]], dst: &[u8], pks: &[&PublicKey], _v: bool) -> BLST_ERROR {
            if pks.is_empty() || pks.len() != msgs.len() { return BLST_VERIFY_FAIL; }
            let mut a = [0u8; 96];
            a[0] = 0x80;
            for (p, m) in pks.iter().zip(msgs) { xor(&mut a, &sig(p, m, dst)); }
            if a == self.0 { BLST_SUCCESS } else { BLST_VERIFY_FAIL }
        }
    }
    impl AggregateSignature {
        pub fn aggregate(s: &[&Signature], _g: bool) -> Result<Self, BLST_ERROR> {
            if s.is_empty() { return Err(BLST_AGGR_TYPE_MISMATCH); }
            let mut a = [0u8; 96];
            a[0] = 0x80;
            for x in s { xor(&mut a, &x.0); }
            Ok(Self(a))
        }
        pub fn to_signature(&self) -> Signature { Signature(self.0) }
    }
    impl AggregatePublicKey {
        pub fn aggregate(s: &[&PublicKey], _v: bool) -> Result<Self, BLST_ERROR> {
            if s.is_empty() { return Err(BLST_AGGR_TYPE_MISMATCH); }
            let mut a = [0u8; 48];
            a[0] = 0x80;
            for x in s { xor(&mut a, &x.0); }
            Ok(Self(a))
        }
        pub fn to_public_key(&self) -> PublicKey { PublicKey(self.0) }
    }
}
