//! Just enough JSON output.
pub fn s(x: &str) -> String {
    let mut r = String::from("\"");
    for c in x.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
pub fn arr(x: &[String]) -> String {
    format!("[{}]", x.join(", "))
}
pub fn obj(x: &[(String, String)]) -> String {
    format!(
        "{{{}}}",
        x.iter().map(|(k, v)| format!("{}: {}", s(k), v)).collect::<Vec<_>>().join(", ")
    )
}
