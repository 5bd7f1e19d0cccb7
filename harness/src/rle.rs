//! Byte strings as run-length lists: the form in which bytes appear in
//! scenarios and traces ([[byte, count], ...], maximal runs).
use serde_json::Value;

pub fn enc(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 4 + 2);
    s.push('[');
    let mut i = 0;
    while i < b.len() {
        let mut j = i + 1;
        while j < b.len() && b[j] == b[i] {
            j += 1;
        }
        if i > 0 {
            s.push(',');
        }
        s.push_str(&format!("[{},{}]", b[i], j - i));
        i = j;
    }
    s.push(']');
    s
}

/// Accepts run lists and plain strings.
pub fn dec(v: &Value) -> Vec<u8> {
    match v {
        Value::String(s) => s.as_bytes().to_vec(),
        Value::Array(a) => {
            let mut out = Vec::new();
            for r in a {
                match r {
                    Value::Array(p) => {
                        let b = p[0].as_u64().unwrap() as u8;
                        let n = p[1].as_u64().unwrap() as usize;
                        out.resize(out.len() + n, b);
                    }
                    x => out.push(x.as_u64().unwrap() as u8),
                }
            }
            out
        }
        Value::Null => vec![],
        x => panic!("not a byte string: {x}"),
    }
}
