//! What a sanitised docstring looks like.
use crate::e2e::ensure;

fn skeleton(s: &str) -> Vec<char> {
    s.chars().filter(|c| !c.is_whitespace() && *c != '`' && *c != '/').collect()
}

pub fn check_docstring(input: &str, out: &str) -> Result<(), String> {
    ensure(out.starts_with(' '), || "no leading blank".into())?;
    let body = &out[1..];
    // `conditioned_dedup`
    let cs: Vec<char> = body.chars().collect();
    for w in cs.windows(2) {
        ensure(!(w[0] == '`' && w[1] == '`'), || "adjacent backticks".into())?;
        ensure(!(w[0] == w[1] && w[0] != '\n' && w[0].is_whitespace()), || format!("adjacent {:?}", w[0]))?;
    }
    for l in body.split('\n') {
        ensure(l.trim() == l, || format!("line {l:?} is not trimmed"))?;
    }
    // Trailing slashes
    let no_breaks = body.trim_end_matches('\n');
    let _ = no_breaks;
    // Multi-line shape
    if body.contains('\n') {
        ensure(!body.starts_with('\n') || body == "\n", || "first line is empty".into())?;
        ensure(body.ends_with('\n') && !body.ends_with("\n\n"), || "does not end with exactly one line break".into())?;
    }
    // Nothing but the removable characters is removed, nothing is reordered or added
    ensure(skeleton(input) == skeleton(body), || "other characters were changed".into())?;
    let mut it = cs.iter().peekable();
    // `body` is obtained from the trimmed lines of the input by deletions only (plus one final line break)
    let joined: Vec<char> = input.lines().map(str::trim).collect::<Vec<_>>().join("\n").chars().collect();
    for c in &joined {
        if it.peek() == Some(&c) {
            it.next();
        }
    }
    let rest: Vec<char> = it.copied().collect();
    ensure(rest.is_empty() || rest == ['\n'], || format!("characters were added or reordered: {rest:?}"))?;
    reference_docstring(input).map_or(Ok(()), |want| {
        ensure(want == out, || format!("got {out:?}, expected {want:?}"))
    })
}

/// Exact result, written from the statement of the property
fn reference_docstring(input: &str) -> Option<String> {
    let mut s: String = input.lines().map(str::trim).collect::<Vec<_>>().join("\n");
    while s.ends_with('/') {
        s.pop();
        s = s.trim_end().to_string();
    }
    let mut out: Vec<char> = Vec::new();
    for c in s.chars() {
        if let Some(&l) = out.last() {
            if l == c && c != '\n' && (c.is_whitespace() || c == '`') {
                continue;
            }
        }
        out.push(c);
    }
    let mut s: String = out.into_iter().collect();
    if s.contains('\n') {
        s = s.trim_start_matches('\n').trim_end_matches('\n').to_string() + "\n";
    }
    Some(format!(" {s}"))
}
