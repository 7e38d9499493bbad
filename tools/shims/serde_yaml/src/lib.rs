//! Flat `KEY: value` documents only; every scalar is offered as a number when it parses as one, else as a string.
#[derive(Debug)]
pub struct Error(pub String);
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) } }
impl std::error::Error for Error {}
pub fn from_reader<R: std::io::Read, T: serde::de::DeserializeOwned>(mut r: R) -> Result<T, Error> {
    let mut s = String::new();
    r.read_to_string(&mut s).map_err(|e| Error(e.to_string()))?;
    from_str(&s)
}
pub fn from_str<T: serde::de::DeserializeOwned>(s: &str) -> Result<T, Error> {
    let mut m = serde_json::Map::new();
    for l in s.lines() {
        let l = l.split(" #").next().unwrap().trim();
        if l.is_empty() || l.starts_with('#') { continue; }
        if let Some((k, v)) = l.split_once(':') {
            let v = v.trim();
            let q = v.trim_matches(|c| c == '"' || c == '\'');
            let val = if q == v { v.parse::<u64>().map(Into::into).unwrap_or(serde_json::Value::String(v.into())) } else { serde_json::Value::String(q.into()) };
            m.insert(k.trim().to_string(), val);
        }
    }
    serde_json::from_value(serde_json::Value::Object(m)).map_err(|e| Error(e.to_string()))
}
