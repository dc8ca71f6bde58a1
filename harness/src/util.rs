use serde_json::{json, Value as J};

/// The request itself is malformed: an error of the harness, never of the code under test.
#[derive(Debug)]
pub struct BadRequest(pub String);
impl std::fmt::Display for BadRequest {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for BadRequest {}

/// A constructor accepted its input, but the value it made does not answer its accessors.
#[derive(Debug)]
pub struct Unusable(pub String);
impl std::fmt::Display for Unusable {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for Unusable {}

pub fn view(r: anyhow::Result<J>) -> anyhow::Result<J> {
    r.map_err(|e| anyhow::Error::new(Unusable(e.to_string())))
}

pub fn bad<T>(m: &str) -> anyhow::Result<T> {
    Err(anyhow::Error::new(BadRequest(m.to_string())))
}

pub fn opt_bytes(r: &J, k: &str) -> Option<Vec<u8>> {
    r.get(k).and_then(|v| v.as_array()).map(|a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect())
}
pub fn bytes(r: &J, k: &str) -> anyhow::Result<Vec<u8>> {
    opt_bytes(r, k).map_or_else(|| bad(&format!("missing bytes {k}")), Ok)
}
/// a text argument: a JSON string, or an array of UTF-8 bytes
pub fn opt_text(r: &J, k: &str) -> Option<String> {
    match r.get(k) {
        Some(J::String(s)) => Some(s.clone()),
        Some(J::Array(_)) => Some(String::from_utf8(opt_bytes(r, k).unwrap()).expect("request text is UTF-8")),
        _ => None,
    }
}
pub fn text(r: &J, k: &str) -> anyhow::Result<String> {
    opt_text(r, k).map_or_else(|| bad(&format!("missing text {k}")), Ok)
}
pub fn opt_u64(r: &J, k: &str) -> Option<u64> {
    r.get(k).and_then(|v| v.as_u64())
}
pub fn opt_bool(r: &J, k: &str) -> Option<bool> {
    r.get(k).and_then(|v| v.as_bool())
}
pub fn jb(b: &[u8]) -> J {
    J::Array(b.iter().map(|x| json!(x)).collect())
}
pub fn js(s: &str) -> J {
    jb(s.as_bytes())
}
pub fn raw_bytes(v: &J) -> Vec<u8> {
    v.as_array().expect("bytes").iter().map(|x| x.as_u64().unwrap() as u8).collect()
}

/// one question to a value: its answer, an error, or a panic
pub fn ask<F: FnOnce() -> anyhow::Result<J>>(f: F) -> J {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(Ok(mut v)) => {
            v["ok"] = json!(true);
            v
        }
        Ok(Err(_)) => json!({"ok": false, "kind": "err"}),
        Err(_) => json!({"ok": false, "kind": "panic"}),
    }
}
