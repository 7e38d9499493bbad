use crate::*;
use bitvec::prelude::{BitVec, Lsb0};
use std::ops::{Deref, DerefMut};

macro_rules! num {
    ($($t:ty),*) => { $(
        impl SszSized for $t { fn is_variable_size() -> bool { false } fn size_hint() -> usize { std::mem::size_of::<$t>() } }
        impl Serialize for $t { fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> { b.extend_from_slice(&self.to_le_bytes()); Ok(std::mem::size_of::<$t>()) } }
        impl Deserialize for $t { fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> { Ok(<$t>::from_le_bytes(e.try_into().map_err(|_| DeserializeError)?)) } }
        impl HashTreeRoot for $t { fn hash_tree_root(&self) -> Result<Node, MerkleizationError> { Ok(pack(&self.to_le_bytes())[0]) } fn is_basic() -> bool { true } }
        impl SimpleSerialize for $t {}
    )* };
}
num!(u8, u16, u32, u64, u128, usize);
impl SszSized for bool { fn is_variable_size() -> bool { false } fn size_hint() -> usize { 1 } }
impl Serialize for bool { fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> { b.push(*self as u8); Ok(1) } }
impl Deserialize for bool { fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> { match e { [0] => Ok(false), [1] => Ok(true), _ => Err(DeserializeError) } } }
impl HashTreeRoot for bool { fn hash_tree_root(&self) -> Result<Node, MerkleizationError> { (*self as u8).hash_tree_root() } fn is_basic() -> bool { true } }
impl SimpleSerialize for bool {}

#[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Node(pub [u8; 32]);
impl fmt::Debug for Node { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "0x{}", hex::encode(self.0)) } }
impl fmt::Display for Node { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{self:?}") } }
impl fmt::LowerHex for Node { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{self:?}") } }
impl AsRef<[u8]> for Node { fn as_ref(&self) -> &[u8] { &self.0 } }
impl Deref for Node { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
impl DerefMut for Node { fn deref_mut(&mut self) -> &mut [u8] { &mut self.0 } }
impl TryFrom<&[u8]> for Node { type Error = std::array::TryFromSliceError; fn try_from(b: &[u8]) -> Result<Self, Self::Error> { Ok(Node(b.try_into()?)) } }
impl From<[u8; 32]> for Node { fn from(b: [u8; 32]) -> Self { Node(b) } }
impl SszSized for Node { fn is_variable_size() -> bool { false } fn size_hint() -> usize { 32 } }
impl Serialize for Node { fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> { b.extend_from_slice(&self.0); Ok(32) } }
impl Deserialize for Node { fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> { Node::try_from(e).map_err(|_| DeserializeError) } }
impl HashTreeRoot for Node { fn hash_tree_root(&self) -> Result<Node, MerkleizationError> { Ok(*self) } }
impl SimpleSerialize for Node {}
impl serde::Serialize for Node { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_str(&format_args!("{self:?}")) } }
impl<'de> serde::Deserialize<'de> for Node {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = <String as serde::Deserialize>::deserialize(d)?;
        let b = hex::decode(s.trim_start_matches("0x")).map_err(serde::de::Error::custom)?;
        Node::try_from(b.as_slice()).map_err(serde::de::Error::custom)
    }
}

/// 256-bit unsigned integer, little-endian bytes.
#[derive(Clone, Copy, Default, PartialEq, Eq, Hash)]
pub struct U256(pub [u8; 32]);
impl U256 {
    pub const ZERO: U256 = U256([0; 32]);
    pub const fn from_le_bytes(b: [u8; 32]) -> Self { U256(b) }
    pub fn from_be_bytes(mut b: [u8; 32]) -> Self { b.reverse(); U256(b) }
    pub fn from_be_slice(s: &[u8]) -> Self { let mut b = [0; 32]; b[32 - s.len()..].copy_from_slice(s); Self::from_be_bytes(b) }
    pub fn from(v: u64) -> Self { let mut b = [0; 32]; b[..8].copy_from_slice(&v.to_le_bytes()); U256(b) }
    pub fn to_le_bytes(&self) -> [u8; 32] { self.0 }
    pub fn as_le_slice(&self) -> &[u8] { &self.0 }
}
impl Ord for U256 { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.0.iter().rev().cmp(o.0.iter().rev()) } }
impl PartialOrd for U256 { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl fmt::Debug for U256 { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "U256({})", hex::encode(self.0)) } }
impl fmt::Display for U256 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut b = self.0;
        let mut out = vec![];
        while b.iter().any(|x| *x != 0) {
            let mut r = 0u32;
            for x in b.iter_mut().rev() {
                let v = r * 256 + *x as u32;
                *x = (v / 10) as u8;
                r = v % 10;
            }
            out.push(b'0' + r as u8);
        }
        if out.is_empty() { out.push(b'0'); }
        out.reverse();
        write!(f, "{}", String::from_utf8(out).unwrap())
    }
}
impl std::str::FromStr for U256 {
    type Err = SimpleSerializeError;
    fn from_str(s: &str) -> Result<Self, SimpleSerializeError> {
        let mut b = [0u8; 32];
        if s.is_empty() { return Err(SimpleSerializeError); }
        for c in s.bytes() {
            if !c.is_ascii_digit() { return Err(SimpleSerializeError); }
            let mut carry = (c - b'0') as u32;
            for x in b.iter_mut() { let v = *x as u32 * 10 + carry; *x = v as u8; carry = v >> 8; }
            if carry != 0 { return Err(SimpleSerializeError); }
        }
        Ok(U256(b))
    }
}
impl SszSized for U256 { fn is_variable_size() -> bool { false } fn size_hint() -> usize { 32 } }
impl Serialize for U256 { fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> { b.extend_from_slice(&self.0); Ok(32) } }
impl Deserialize for U256 { fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> { Ok(U256(e.try_into().map_err(|_| DeserializeError)?)) } }
impl HashTreeRoot for U256 { fn hash_tree_root(&self) -> Result<Node, MerkleizationError> { Ok(Node(self.0)) } fn is_basic() -> bool { true } }
impl SimpleSerialize for U256 {}
impl serde::Serialize for U256 { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_str(self) } }
impl<'de> serde::Deserialize<'de> for U256 {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        <String as serde::Deserialize>::deserialize(d)?.parse().map_err(serde::de::Error::custom)
    }
}

fn ser_seq<T: Serialize>(v: &[T], b: &mut Vec<u8>) -> Result<usize, SerializeError> {
    let mut w = Writer::default();
    for x in v { w.put(x)?; }
    w.finish(b)
}
fn de_seq<T: SszSized + Deserialize>(e: &[u8]) -> Result<Vec<T>, DeserializeError> {
    if e.is_empty() { return Ok(vec![]); }
    if T::is_variable_size() {
        let n = u32::from_le_bytes(e.get(..4).ok_or(DeserializeError)?.try_into().unwrap()) as usize / 4;
        if n * 4 > e.len() { return Err(DeserializeError); }
        split_fields(e, &vec![(true, 0); n])?.into_iter().map(T::deserialize).collect()
    } else {
        let k = T::size_hint();
        if e.len() % k != 0 { return Err(DeserializeError); }
        e.chunks(k).map(T::deserialize).collect()
    }
}
fn root_seq<T: HashTreeRoot + Serialize>(v: &[T], limit: usize) -> Result<Node, MerkleizationError> {
    if T::is_basic() {
        let mut b = vec![];
        ser_seq(v, &mut b).map_err(|_| MerkleizationError)?;
        Ok(merkleize(pack(&b), (limit * T::size_hint() + 31) / 32))
    } else {
        Ok(merkleize(v.iter().map(|x| x.hash_tree_root()).collect::<Result<_, _>>()?, limit))
    }
}
macro_rules! seq {
    ($n:ident, $ok:expr, $var:expr) => {
        #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct $n<T, const N: usize>(Vec<T>);
        impl<T: fmt::Debug, const N: usize> fmt::Debug for $n<T, N> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.fmt(f) } }
        impl<T, const N: usize> Deref for $n<T, N> { type Target = Vec<T>; fn deref(&self) -> &Vec<T> { &self.0 } }
        impl<T, const N: usize> AsRef<[T]> for $n<T, N> { fn as_ref(&self) -> &[T] { &self.0 } }
        impl<T, const N: usize> TryFrom<Vec<T>> for $n<T, N> {
            type Error = (Vec<T>, SimpleSerializeError);
            fn try_from(v: Vec<T>) -> Result<Self, Self::Error> { let ok: fn(usize, usize) -> bool = $ok; if ok(v.len(), N) { Ok(Self(v)) } else { Err((v, SimpleSerializeError)) } }
        }
        impl<T: Clone, const N: usize> TryFrom<&[T]> for $n<T, N> {
            type Error = SimpleSerializeError;
            fn try_from(v: &[T]) -> Result<Self, Self::Error> { Self::try_from(v.to_vec()).map_err(|e| e.1) }
        }
        impl<'a, T, const N: usize> IntoIterator for &'a $n<T, N> { type Item = &'a T; type IntoIter = std::slice::Iter<'a, T>; fn into_iter(self) -> Self::IntoIter { self.0.iter() } }
        impl<T: SszSized, const N: usize> SszSized for $n<T, N> {
            fn is_variable_size() -> bool { $var || T::is_variable_size() }
            fn size_hint() -> usize { if $var { 0 } else { N * T::size_hint() } }
        }
        impl<T: Serialize, const N: usize> Serialize for $n<T, N> { fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> { ser_seq(&self.0, b) } }
        impl<T: SszSized + Deserialize, const N: usize> Deserialize for $n<T, N> {
            fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> { Self::try_from(de_seq(e)?).map_err(|_| DeserializeError) }
        }
        impl<T: SimpleSerialize, const N: usize> SimpleSerialize for $n<T, N> {}
        impl<T: serde::Serialize, const N: usize> serde::Serialize for $n<T, N> { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_seq(self.0.iter()) } }
        impl<'de, T: serde::Deserialize<'de>, const N: usize> serde::Deserialize<'de> for $n<T, N> {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { Self::try_from(<Vec<T> as serde::Deserialize>::deserialize(d)?).map_err(|_| serde::de::Error::custom("wrong length")) }
        }
    };
}
seq!(List, |l, n| l <= n, true);
seq!(Vector, |l, n| l == n, false);
impl<T, const N: usize> Default for List<T, N> { fn default() -> Self { List(vec![]) } }
impl<T: Default, const N: usize> Default for Vector<T, N> { fn default() -> Self { Vector((0..N).map(|_| T::default()).collect()) } }
impl<T, const N: usize> DerefMut for List<T, N> { fn deref_mut(&mut self) -> &mut Vec<T> { &mut self.0 } }
impl<T, const N: usize> DerefMut for Vector<T, N> { fn deref_mut(&mut self) -> &mut Vec<T> { &mut self.0 } }
impl<T: HashTreeRoot + Serialize, const N: usize> HashTreeRoot for List<T, N> {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> { Ok(mix(root_seq(&self.0, N)?, self.0.len())) }
    fn elem_index(i: usize) -> Option<(usize, usize, fn(&[PathElement]) -> Option<usize>)> {
        if i >= N || T::is_basic() { return None; }
        Some((i, 2 * N.next_power_of_two(), T::g_index))
    }
}
impl<T: HashTreeRoot + Serialize, const N: usize> HashTreeRoot for Vector<T, N> {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> { root_seq(&self.0, N) }
}
macro_rules! bits {
    ($n:ident) => {
        #[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
        pub struct $n<const N: usize>(BitVec<u8, Lsb0>);
        impl<const N: usize> fmt::Debug for $n<N> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { for b in self.0.iter() { write!(f, "{}", *b as u8)?; } Ok(()) } }
        impl<const N: usize> Deref for $n<N> { type Target = BitVec<u8, Lsb0>; fn deref(&self) -> &Self::Target { &self.0 } }
        impl<const N: usize> DerefMut for $n<N> { fn deref_mut(&mut self) -> &mut Self::Target { &mut self.0 } }
        impl<const N: usize> SimpleSerialize for $n<N> {}
        impl<const N: usize> serde::Serialize for $n<N> {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { let b = crate::serialize(self).map_err(serde::ser::Error::custom)?; s.collect_str(&format_args!("0x{}", hex::encode(b))) }
        }
        impl<'de, const N: usize> serde::Deserialize<'de> for $n<N> {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                let s = <String as serde::Deserialize>::deserialize(d)?;
                let b = hex::decode(s.trim_start_matches("0x")).map_err(serde::de::Error::custom)?;
                <Self as Deserialize>::deserialize(&b).map_err(serde::de::Error::custom)
            }
        }
    };
}
bits!(Bitlist);
bits!(Bitvector);
fn bytes_of(b: &BitVec<u8, Lsb0>) -> Vec<u8> {
    let mut v = vec![0u8; (b.len() + 7) / 8];
    for (i, x) in b.iter().enumerate() { if *x { v[i / 8] |= 1 << (i % 8); } }
    v
}
impl<const N: usize> Default for Bitlist<N> { fn default() -> Self { Bitlist(BitVec::new()) } }
impl<const N: usize> Default for Bitvector<N> { fn default() -> Self { Bitvector(BitVec::repeat(false, N)) } }
impl<const N: usize> Bitlist<N> {
    pub fn with_length(n: usize) -> Self { Bitlist(BitVec::repeat(false, n)) }
}
impl<const N: usize> TryFrom<&[bool]> for Bitlist<N> { type Error = SimpleSerializeError; fn try_from(v: &[bool]) -> Result<Self, SimpleSerializeError> { if v.len() > N { return Err(SimpleSerializeError); } Ok(Bitlist(v.iter().collect())) } }
impl<const N: usize> SszSized for Bitlist<N> { fn is_variable_size() -> bool { true } fn size_hint() -> usize { 0 } }
impl<const N: usize> SszSized for Bitvector<N> { fn is_variable_size() -> bool { false } fn size_hint() -> usize { (N + 7) / 8 } }
impl<const N: usize> Serialize for Bitvector<N> { fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> { let v = bytes_of(&self.0); b.extend_from_slice(&v); Ok(v.len()) } }
impl<const N: usize> Serialize for Bitlist<N> { fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> { let mut x = self.0.clone(); x.push(true); let v = bytes_of(&x); b.extend_from_slice(&v); Ok(v.len()) } }
impl<const N: usize> Deserialize for Bitvector<N> {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        if e.len() != (N + 7) / 8 { return Err(DeserializeError); }
        let mut b: BitVec<u8, Lsb0> = BitVec::from_slice(e);
        if b[N..].any() { return Err(DeserializeError); }
        b.truncate(N);
        Ok(Bitvector(b))
    }
}
impl<const N: usize> Deserialize for Bitlist<N> {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        let mut b: BitVec<u8, Lsb0> = BitVec::from_slice(e);
        let l = b.last_one().ok_or(DeserializeError)?;
        if l / 8 + 1 != e.len() || l > N { return Err(DeserializeError); }
        b.truncate(l);
        Ok(Bitlist(b))
    }
}
impl<const N: usize> HashTreeRoot for Bitvector<N> { fn hash_tree_root(&self) -> Result<Node, MerkleizationError> { Ok(merkleize(pack(&bytes_of(&self.0)), (N + 255) / 256)) } }
impl<const N: usize> HashTreeRoot for Bitlist<N> { fn hash_tree_root(&self) -> Result<Node, MerkleizationError> { Ok(mix(merkleize(pack(&bytes_of(&self.0)), (N + 255) / 256), self.0.len())) } }
impl<T: SszSized, const N: usize> SszSized for [T; N] { fn is_variable_size() -> bool { T::is_variable_size() } fn size_hint() -> usize { N * T::size_hint() } }
impl<T: Serialize, const N: usize> Serialize for [T; N] { fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> { ser_seq(self, b) } }
impl<T: SszSized + Deserialize, const N: usize> Deserialize for [T; N] { fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> { de_seq(e)?.try_into().map_err(|_| DeserializeError) } }
impl<T: HashTreeRoot + Serialize, const N: usize> HashTreeRoot for [T; N] { fn hash_tree_root(&self) -> Result<Node, MerkleizationError> { root_seq(self, N) } }
impl<T: SimpleSerialize, const N: usize> SimpleSerialize for [T; N] {}
