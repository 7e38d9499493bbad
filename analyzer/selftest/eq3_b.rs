pub fn a1(data: &[u8]) -> Bytes32 {
    let digest = Sha256::digest(data);
    Bytes32::try_from(digest.as_ref()).unwrap()
}
pub fn a2(data: &[u8]) -> Bytes32 {
    let mut h = Sha256::default();
    h.update(data);
    let d = h.finalize();
    Bytes32::try_from(d.as_slice()).expect("32 bytes")
}
pub fn a3(m: &mut BTreeMap<String, Module>, k: &str, o: Module) {
    m.entry(k.to_string()).or_insert_with(Default::default).merge(o);
}
pub fn a4(m: &mut BTreeMap<String, Vec<u8>>, k: &str, o: u8) {
    let key = k.to_string();
    let list = m.entry(key).or_default();
    list.push(o);
}
pub fn a5(x: u8) -> String {
    let mut s = "a".to_string();
    s += "b";
    s
}
pub fn a6(x: usize) -> Result<u32, E> {
    match u32::try_from(x) {
        Ok(y) => Ok(1 + y),
        Err(_) => Err(E),
    }
}
pub fn a7(x: &[u8]) -> u64 {
    let mut b = [0u8; 8];
    b.copy_from_slice(&x[..8]);
    u64::from_le_bytes(b)
}
pub fn a8(path: &Path, out: String) {
    let parent = path.parent().unwrap();
    fs::create_dir_all(parent).unwrap();
    fs::write(path, out).unwrap();
}
