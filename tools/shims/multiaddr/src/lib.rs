#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Multiaddr(pub String);
impl serde::Serialize for Multiaddr { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&self.0) } }
impl<'de> serde::Deserialize<'de> for Multiaddr { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { Ok(Multiaddr(<String as serde::Deserialize>::deserialize(d)?)) } }
