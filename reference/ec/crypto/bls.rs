#[cfg(feature = "serde")]
use crate::serde::try_bytes_from_hex_str;
use crate::{primitives::Bytes32, ssz::prelude::*};
use blst::{min_pk as bls_impl, BLST_ERROR};
use sha2::{Digest, Sha256};
use std::{
    fmt,
    ops::{Deref, DerefMut},
};
use thiserror::Error;

pub fn hash<D: AsRef<[u8]>>(data: D) -> Bytes32 {
    let mut hasher = Sha256::new();
    hasher.update(data);

    let mut result = Bytes32::default();
    let inner = &mut result[..];
    hasher.finalize_into(inner.into());
    result
}

const BLS_DST: &[u8] = b"BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_";
const BLS_PUBLIC_KEY_BYTES_LEN: usize = 48;
const BLS_SECRET_KEY_BYTES_LEN: usize = 32;
const BLS_SIGNATURE_BYTES_LEN: usize = 96;

#[derive(Debug, Error)]
pub enum Error {
    #[cfg(feature = "serde")]
    #[error("error deserializing hex-encoded input: {0}")]
    Hex(#[from] hex::FromHexError),
    #[error("inputs required for aggregation but none were provided")]
    EmptyAggregate,
    #[error("{0}")]
    SimpleSerialize(#[from] SimpleSerializeError),
    #[error("randomness failure: {0}")]
    Randomness(#[from] rand::Error),
    #[error("blst error: {0}")]
    BLST(#[from] BLSTError),
    #[error("invalid signature")]
    InvalidSignature,
}

#[derive(Debug, Error)]
#[error("{0}")]
pub struct BLSTError(String);

impl From<BLST_ERROR> for BLSTError {
    fn from(err: BLST_ERROR) -> Self {
        let inner = match err {
            BLST_ERROR::BLST_SUCCESS => unreachable!("do not create a BLSTError from a sucess"),
            BLST_ERROR::BLST_BAD_ENCODING => "bad encoding",
            BLST_ERROR::BLST_POINT_NOT_ON_CURVE => "point not on curve",
            BLST_ERROR::BLST_POINT_NOT_IN_GROUP => "point not in group",
            BLST_ERROR::BLST_AGGR_TYPE_MISMATCH => "aggregation type mismatch",
            BLST_ERROR::BLST_VERIFY_FAIL => "verification failed",
            BLST_ERROR::BLST_PK_IS_INFINITY => "public key is infinity",
            BLST_ERROR::BLST_BAD_SCALAR => "bad scalar input",
        };
        Self(inner.to_string())
    }
}

pub fn verify_signature(
    public_key: &PublicKey,
    msg: &[u8],
    signature: &Signature,
) -> Result<(), Error> {
    let public_key: bls_impl::PublicKey = public_key.try_into()?;
    let signature: bls_impl::Signature = signature.try_into()?;
    let res = signature.verify(true, msg, BLS_DST, &[], &public_key, true);
    if res == BLST_ERROR::BLST_SUCCESS {
        Ok(())
    } else {
        Err(Error::InvalidSignature)
    }
}

pub fn aggregate(signatures: &[Signature]) -> Result<Signature, Error> {
    if signatures.is_empty() {
        return Err(Error::EmptyAggregate)
    }

    let signatures = signatures
        .iter()
        .map(bls_impl::Signature::try_from)
        .collect::<Result<Vec<bls_impl::Signature>, Error>>()?;
    let signatures: Vec<&bls_impl::Signature> = signatures.iter().collect();

    bls_impl::AggregateSignature::aggregate(&signatures, true)
        .map(|s| Signature::try_from(s.to_signature().to_bytes().as_ref()).unwrap())
        .map_err(|e| BLSTError::from(e).into())
}

pub fn aggregate_verify(
    public_keys: &[PublicKey],
    msgs: &[&[u8]],
    signature: &Signature,
) -> Result<(), Error> {
    let public_keys = public_keys
        .iter()
        .map(bls_impl::PublicKey::try_from)
        .collect::<Result<Vec<bls_impl::PublicKey>, Error>>()?;
    let public_keys: Vec<&bls_impl::PublicKey> = public_keys.iter().collect();
    let signature: bls_impl::Signature = signature.try_into()?;
    let res = signature.aggregate_verify(true, msgs, BLS_DST, &public_keys, true);
    if res == BLST_ERROR::BLST_SUCCESS {
        Ok(())
    } else {
        Err(Error::InvalidSignature)
    }
}

pub fn fast_aggregate_verify(
    public_keys: &[&PublicKey],
    msg: &[u8],
    signature: &Signature,
) -> Result<(), Error> {
    let public_keys = public_keys
        .iter()
        .cloned()
        .map(bls_impl::PublicKey::try_from)
        .collect::<Result<Vec<bls_impl::PublicKey>, Error>>()?;
    let public_keys: Vec<&bls_impl::PublicKey> = public_keys.iter().collect();
    let signature: bls_impl::Signature = signature.try_into()?;
    let res = signature.fast_aggregate_verify(true, msg, BLS_DST, &public_keys);
    if res == BLST_ERROR::BLST_SUCCESS {
        Ok(())
    } else {
        Err(Error::InvalidSignature)
    }
}

// Return the aggregate public key for the public keys in `pks`
pub fn eth_aggregate_public_keys(public_keys: &[PublicKey]) -> Result<PublicKey, Error> {
    if public_keys.is_empty() {
        return Err(Error::EmptyAggregate)
    }
    let public_keys = public_keys
        .iter()
        .map(bls_impl::PublicKey::try_from)
        .collect::<Result<Vec<bls_impl::PublicKey>, Error>>()?;
    let public_keys: Vec<&bls_impl::PublicKey> = public_keys.iter().collect();

    bls_impl::AggregatePublicKey::aggregate(&public_keys, true)
        .map(|agg_pk| PublicKey::try_from(agg_pk.to_public_key().to_bytes().as_ref()).unwrap())
        .map_err(|e| BLSTError::from(e).into())
}

pub fn eth_fast_aggregate_verify(
    public_keys: &[&PublicKey],
    message: &[u8],
    signature: &Signature,
) -> Result<(), Error> {
    if public_keys.is_empty() && signature.is_infinity() {
        Ok(())
    } else {
        fast_aggregate_verify(public_keys, message, signature)
    }
}

#[derive(Clone, Default, serde::Deserialize)]
#[serde(try_from = "String")]
pub struct SecretKey(bls_impl::SecretKey);

#[cfg(not(feature = "secret-key-debug"))]
impl fmt::Debug for SecretKey {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_tuple("SecretKey").finish()
    }
}

#[cfg(feature = "secret-key-debug")]
impl fmt::Debug for SecretKey {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let inner = Bytes32::try_from(self.0.to_bytes().as_ref()).unwrap();
        write!(f, "{inner:?}")
    }
}

#[cfg(feature = "serde")]
impl TryFrom<String> for SecretKey {
    type Error = Error;

    fn try_from(data: String) -> Result<Self, Self::Error> {
        let encoding = try_bytes_from_hex_str(&data)?;
        Self::try_from(encoding.as_ref())
    }
}

impl TryFrom<&[u8]> for SecretKey {
    type Error = Error;

    /// **NOTE**: This interface only accepts representations of **valid** secret keys.
    ///
    /// If you are not sure if your input is already valid, then use [Self::from_bytes].
    fn try_from(data: &[u8]) -> Result<Self, Self::Error> {
        let inner = bls_impl::SecretKey::from_bytes(data).map_err(BLSTError::from)?;
        Ok(Self(inner))
    }
}

impl SecretKey {
    pub fn random<R: rand::Rng>(rng: &mut R) -> Result<Self, Error> {
        let mut ikm = [0u8; BLS_SECRET_KEY_BYTES_LEN];
        rng.try_fill_bytes(&mut ikm)?;
        Self::key_gen(&ikm)
    }

    pub fn key_gen(ikm: &[u8]) -> Result<Self, Error> {
        let sk = bls_impl::SecretKey::key_gen(ikm, &[]).map_err(BLSTError::from)?;
        Ok(Self(sk))
    }

    pub fn public_key(&self) -> PublicKey {
        let pk = self.0.sk_to_pk();
        PublicKey::try_from(pk.to_bytes().as_ref()).unwrap()
    }

    pub fn sign(&self, msg: &[u8]) -> Signature {
        let inner = self.0.sign(msg, BLS_DST, &[]);
        Signature::try_from(inner.to_bytes().as_ref()).unwrap()
    }

    pub fn to_bytes(self) -> [u8; 32] {
        self.0.to_bytes()
    }

    /// Generates a key following EIP-2333.
    /// Allows for more permissive input than [Self::try_from].
    /// Use this if you e.g. are working with key material from a mnemonic seed phrase.
    pub fn from_bytes(input: &[u8]) -> Result<Self, Error> {
        let sk = bls_impl::SecretKey::derive_master_eip2333(input).map_err(BLSTError::from)?;
        Ok(Self(sk))
    }
}

#[derive(
    Clone,
    Default,
    Hash,
    PartialEq,
    Eq,
    PartialOrd,
    Ord,
    SimpleSerialize,
    serde::Serialize,
    serde::Deserialize,
)]
pub struct PublicKey(ByteVector<BLS_PUBLIC_KEY_BYTES_LEN>);

impl fmt::Debug for PublicKey {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let inner = &self.0;
        write!(f, "{inner:?}")
    }
}

impl fmt::Display for PublicKey {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let inner = &self.0;
        write!(f, "{inner}")
    }
}

impl Deref for PublicKey {
    type Target = ByteVector<BLS_PUBLIC_KEY_BYTES_LEN>;

    fn deref(&self) -> &Self::Target {
        &self.0
    }
}

impl DerefMut for PublicKey {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.0
    }
}

impl TryFrom<&[u8]> for PublicKey {
    type Error = Error;

    fn try_from(data: &[u8]) -> Result<Self, Error> {
        let inner =
            ByteVector::try_from(data).map_err(|err| -> SimpleSerializeError { err.into() })?;
        Ok(Self(inner))
    }
}

impl TryFrom<&PublicKey> for bls_impl::PublicKey {
    type Error = Error;

    fn try_from(public_key: &PublicKey) -> Result<Self, Error> {
        Self::key_validate(public_key.0.as_ref()).map_err(|err| BLSTError::from(err).into())
    }
}

#[derive(
    Clone, Default, Hash, PartialEq, Eq, SimpleSerialize, serde::Serialize, serde::Deserialize,
)]
pub struct Signature(ByteVector<BLS_SIGNATURE_BYTES_LEN>);

impl fmt::Debug for Signature {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let inner = &self.0;
        write!(f, "{inner:?}")
    }
}

impl fmt::Display for Signature {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let inner = &self.0;
        write!(f, "{inner}")
    }
}

impl Deref for Signature {
    type Target = ByteVector<BLS_SIGNATURE_BYTES_LEN>;

    fn deref(&self) -> &Self::Target {
        &self.0
    }
}

impl DerefMut for Signature {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.0
    }
}

impl TryFrom<&[u8]> for Signature {
    type Error = Error;

    fn try_from(data: &[u8]) -> Result<Self, Error> {
        let inner =
            ByteVector::try_from(data).map_err(|err| -> SimpleSerializeError { err.into() })?;
        Ok(Self(inner))
    }
}

impl TryFrom<&Signature> for bls_impl::Signature {
    type Error = Error;

    fn try_from(signature: &Signature) -> Result<Self, Error> {
        Self::from_bytes(signature.0.as_ref()).map_err(|err| BLSTError::from(err).into())
    }
}

const INFINITY_COMPRESSED_SIGNATURE: [u8; BLS_SIGNATURE_BYTES_LEN] = [
    192, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0,
];

impl Signature {
    pub fn is_infinity(&self) -> bool {
        self.as_ref() == INFINITY_COMPRESSED_SIGNATURE
    }
}


