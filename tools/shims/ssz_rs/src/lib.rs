//! Small stand-in for `ssz_rs` so that the library can be compiled offline in demonstrations.
extern crate self as ssz_rs;
mod coll;
pub use coll::*;
pub use ssz_rs_derive::{HashTreeRoot, Serializable, SimpleSerialize};
use sha2::{Digest, Sha256};
use std::fmt;

macro_rules! err {
    ($($n:ident),*) => { $(
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct $n;
        impl fmt::Display for $n { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, stringify!($n)) } }
        impl std::error::Error for $n {}
    )* };
}
err!(SerializeError, DeserializeError, MerkleizationError, SimpleSerializeError);
pub type InstanceError = SimpleSerializeError;
impl From<SerializeError> for SimpleSerializeError { fn from(_: SerializeError) -> Self { Self } }
impl From<DeserializeError> for SimpleSerializeError { fn from(_: DeserializeError) -> Self { Self } }
impl From<MerkleizationError> for SimpleSerializeError { fn from(_: MerkleizationError) -> Self { Self } }

pub trait SszSized {
    fn is_variable_size() -> bool;
    fn size_hint() -> usize;
}
pub trait Serialize: SszSized {
    fn serialize(&self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError>;
}
pub trait Deserialize: Sized {
    fn deserialize(encoding: &[u8]) -> Result<Self, DeserializeError>;
}
pub trait Serializable: Serialize + Deserialize {}
impl<T: Serialize + Deserialize> Serializable for T {}
#[derive(Clone, Debug)]
pub enum PathElement {
    Index(usize),
    Field(String),
    Length,
}
impl From<&str> for PathElement { fn from(s: &str) -> Self { Self::Field(s.to_string()) } }
impl From<usize> for PathElement { fn from(s: usize) -> Self { Self::Index(s) } }
pub type Path<'a> = &'a [PathElement];
type Child = (usize, usize, fn(&[PathElement]) -> Option<usize>);
pub trait HashTreeRoot {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError>;
    fn is_basic() -> bool where Self: Sized { false }
    fn child_index(_name: &str) -> Option<Child> where Self: Sized { None }
    fn elem_index(_i: usize) -> Option<Child> where Self: Sized { None }
    fn g_index(p: &[PathElement]) -> Option<usize> where Self: Sized {
        let Some(h) = p.first() else { return Some(1) };
        let (i, n, f) = match h {
            PathElement::Field(s) => Self::child_index(s)?,
            PathElement::Index(i) => Self::elem_index(*i)?,
            PathElement::Length => return None,
        };
        let sub = f(&p[1..])?;
        let w = n.next_power_of_two();
        let bits = usize::BITS - 1 - sub.leading_zeros();
        Some(((w + i) << bits) | (sub - (1 << bits)))
    }
}
pub trait SimpleSerialize: Serialize + Deserialize + HashTreeRoot {}
pub trait GeneralizedIndexable {
    fn generalized_index(path: Path) -> Result<usize, MerkleizationError>;
}
impl<T: HashTreeRoot> GeneralizedIndexable for T {
    fn generalized_index(path: Path) -> Result<usize, MerkleizationError> { T::g_index(path).ok_or(MerkleizationError) }
}
impl<T: HashTreeRoot> HashTreeRoot for &T {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> { (**self).hash_tree_root() }
}
impl<T: HashTreeRoot> HashTreeRoot for &mut T {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> { (**self).hash_tree_root() }
}
impl<T: SszSized> SszSized for &T {
    fn is_variable_size() -> bool { T::is_variable_size() }
    fn size_hint() -> usize { T::size_hint() }
}
impl<T: Serialize> Serialize for &T {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> { (**self).serialize(b) }
}
pub fn serialize<T: Serialize>(v: &T) -> Result<Vec<u8>, SerializeError> {
    let mut b = vec![];
    v.serialize(&mut b)?;
    Ok(b)
}
pub fn deserialize<T: Deserialize>(e: &[u8]) -> Result<T, DeserializeError> { T::deserialize(e) }

#[derive(Default)]
pub struct Writer { fixed: Vec<Result<Vec<u8>, usize>>, var: Vec<u8> }
impl Writer {
    pub fn put<T: Serialize>(&mut self, v: &T) -> Result<(), SerializeError> {
        let mut b = vec![];
        v.serialize(&mut b)?;
        if T::is_variable_size() {
            self.fixed.push(Err(self.var.len()));
            self.var.extend(b);
        } else {
            self.fixed.push(Ok(b));
        }
        Ok(())
    }
    pub fn finish(self, out: &mut Vec<u8>) -> Result<usize, SerializeError> {
        let n: usize = self.fixed.iter().map(|f| f.as_ref().map(|b| b.len()).unwrap_or(4)).sum();
        let s = out.len();
        for f in &self.fixed {
            match f {
                Ok(b) => out.extend_from_slice(b),
                Err(o) => out.extend_from_slice(&((n + o) as u32).to_le_bytes()),
            }
        }
        out.extend(self.var);
        Ok(out.len() - s)
    }
}
pub fn split_fields<'a>(e: &'a [u8], shape: &[(bool, usize)]) -> Result<Vec<&'a [u8]>, DeserializeError> {
    let mut out: Vec<Result<&[u8], usize>> = vec![];
    let mut p = 0;
    for (v, n) in shape {
        let n = if *v { 4 } else { *n };
        let b = e.get(p..p + n).ok_or(DeserializeError)?;
        out.push(if *v { Err(u32::from_le_bytes(b.try_into().unwrap()) as usize) } else { Ok(b) });
        p += n;
    }
    let offs: Vec<usize> = out.iter().filter_map(|x| x.err()).chain([e.len()]).collect();
    if offs[0] != p {
        return Err(DeserializeError);
    }
    let mut k = 0;
    out.into_iter()
        .map(|x| match x {
            Ok(b) => Ok(b),
            Err(o) => {
                k += 1;
                e.get(o..offs[k]).ok_or(DeserializeError)
            }
        })
        .collect()
}
pub fn hash2(a: &Node, b: &Node) -> Node {
    let mut h = Sha256::new();
    h.update(a.as_ref());
    h.update(b.as_ref());
    Node::try_from(h.finalize().as_slice()).unwrap()
}
pub fn merkleize(leaves: Vec<Node>, limit: usize) -> Node {
    let depth = limit.max(1).next_power_of_two().trailing_zeros();
    let mut zero = Node::default();
    let mut l = leaves;
    for _ in 0..depth {
        if l.len() % 2 == 1 {
            l.push(zero);
        }
        l = l.chunks(2).map(|c| hash2(&c[0], &c[1])).collect();
        zero = hash2(&zero, &zero);
    }
    l.first().copied().unwrap_or(zero)
}
pub fn mix(root: Node, v: usize) -> Node {
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&(v as u64).to_le_bytes());
    hash2(&root, &Node(b))
}
pub fn pack(bytes: &[u8]) -> Vec<Node> {
    bytes
        .chunks(32)
        .map(|c| {
            let mut b = [0u8; 32];
            b[..c.len()].copy_from_slice(c);
            Node(b)
        })
        .collect()
}
pub mod proofs {
    use super::*;
    pub fn get_subtree_index(g: usize) -> Result<usize, MerkleizationError> {
        if g == 0 {
            return Err(MerkleizationError);
        }
        let d = usize::BITS - 1 - g.leading_zeros();
        Ok(g % (1 << d))
    }
    pub fn is_valid_merkle_branch<T: AsRef<[u8]>>(leaf: Node, branch: &[T], depth: usize, index: usize, root: Node) -> Result<(), MerkleizationError> {
        if branch.len() != depth {
            return Err(MerkleizationError);
        }
        let mut v = leaf;
        for (i, n) in branch.iter().enumerate() {
            let n = Node::try_from(n.as_ref()).map_err(|_| MerkleizationError)?;
            v = if (index >> i) & 1 == 1 { hash2(&n, &v) } else { hash2(&v, &n) };
        }
        if v == root { Ok(()) } else { Err(MerkleizationError) }
    }
}
pub mod prelude {
    pub use crate::proofs::is_valid_merkle_branch;
    pub use crate::{
        deserialize, serialize, Bitlist, Bitvector, Deserialize, DeserializeError, GeneralizedIndexable, HashTreeRoot, InstanceError, List, MerkleizationError, Node, Path, PathElement, Serializable, Serialize,
        SerializeError, SimpleSerialize, SimpleSerializeError, Vector, U256,
    };
    pub use crate as ssz_rs;
}
