pub fn s(x: &str) -> String {
    let mut o = String::with_capacity(x.len() + 2);
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn arr(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}
pub fn strs<I: IntoIterator<Item = S>, S: AsRef<str>>(v: I) -> String {
    arr(&v.into_iter().map(|x| s(x.as_ref())).collect::<Vec<_>>())
}
pub fn obj(v: &[(&str, String)]) -> String {
    format!("{{{}}}", v.iter().map(|(k, x)| format!("{}:{}", s(k), x)).collect::<Vec<_>>().join(","))
}
