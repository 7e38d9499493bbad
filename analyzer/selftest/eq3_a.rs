pub fn a1(data: &[u8]) -> Bytes32 {
    let mut hasher = Sha256::new();
    hasher.update(data);
    let mut result = Bytes32::default();
    let inner = &mut result[..];
    hasher.finalize_into(inner.into());
    result
}
pub fn a2(data: &[u8]) -> Bytes32 {
    let mut hasher = Sha256::new();
    hasher.update(data);
    let mut result = Bytes32::default();
    hasher.finalize_into((&mut result[..]).into());
    result
}
pub fn a3(m: &mut BTreeMap<String, Module>, k: &str, o: Module) {
    let t = m.entry(k.to_string()).or_default();
    t.merge(o);
}
pub fn a4(m: &mut BTreeMap<String, Vec<u8>>, k: &str, o: u8) {
    m.entry(k.to_string()).or_default().push(o);
}
pub fn a5(x: u8) -> String {
    let mut s = String::from("a");
    s.push_str("b");
    s
}
pub fn a6(x: usize) -> Result<u32, E> {
    let y = u32::try_from(x).map_err(|_| E)?;
    Ok(y + 1)
}
pub fn a7(x: &[u8]) -> u64 {
    let b: [u8; 8] = x[..8].try_into().unwrap();
    u64::from_le_bytes(b)
}
pub fn a8(path: &Path, out: String) {
    fs::create_dir_all(path.parent().unwrap()).unwrap();
    fs::write(path, out).unwrap();
}
