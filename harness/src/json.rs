pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// The value of a top-level string or number member of a JSON object written by us.
pub fn field(text: &str, name: &str) -> Option<String> {
    let key = format!("\"{}\":", name);
    let at = text.find(&key)? + key.len();
    let rest = text[at..].trim_start();
    if let Some(r) = rest.strip_prefix('"') {
        let mut o = String::new();
        let mut it = r.chars();
        while let Some(c) = it.next() {
            match c {
                '"' => return Some(o),
                '\\' => match it.next()? {
                    'n' => o.push('\n'),
                    't' => o.push('\t'),
                    'r' => o.push('\r'),
                    c => o.push(c),
                },
                c => o.push(c),
            }
        }
        None
    } else {
        Some(
            rest.chars()
                .take_while(|c| c.is_ascii_digit() || *c == '-')
                .collect(),
        )
    }
}
