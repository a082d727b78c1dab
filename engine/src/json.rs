//! Just enough JSON to report.
pub fn s(x: &str) -> String {
    let mut o = String::from("\"");
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn list(x: impl IntoIterator<Item = String>) -> String { format!("[{}]", x.into_iter().collect::<Vec<_>>().join(",")) }
pub fn obj(x: &[(&str, String)]) -> String { format!("{{{}}}", x.iter().map(|(k, v)| format!("{}:{}", s(k), v)).collect::<Vec<_>>().join(",")) }
