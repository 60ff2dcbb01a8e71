//! An independent, strict reader of HTML output, used as the oracle's eyes.
#![allow(dead_code)]

#[derive(Clone, PartialEq, Debug)]
pub enum Ev { Open(Vec<u8>, Vec<(Vec<u8>, Option<Vec<u8>>)>), Close(Vec<u8>), Text(Vec<u8>) }

pub const VOID: &[&str] = &["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr", "!DOCTYPE"];

fn push_utf8(out: &mut Vec<u8>, c: u32) -> Option<()> {
    let c = char::from_u32(c)?;
    let mut b = [0; 4];
    out.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
    Some(())
}

/// decodes a character reference at `&`; returns its length
fn entity(s: &[u8], out: &mut Vec<u8>) -> Option<usize> {
    for (n, c) in [(&b"&lt;"[..], b'<'), (b"&gt;", b'>'), (b"&amp;", b'&'), (b"&quot;", b'"'), (b"&apos;", b'\'')] {
        if s.starts_with(n) { out.push(c); return Some(n.len()); }
    }
    if s.len() < 4 || s[1] != b'#' { return None; }
    let hex = s[2] == b'x' || s[2] == b'X';
    let mut i = if hex { 3 } else { 2 };
    let start = i;
    let mut v: u32 = 0;
    while i < s.len() && s[i] != b';' {
        let d = match s[i] { c @ b'0'..=b'9' => c - b'0', c @ b'a'..=b'f' if hex => c - b'a' + 10, c @ b'A'..=b'F' if hex => c - b'A' + 10, _ => return None };
        v = v.checked_mul(if hex { 16 } else { 10 })?.checked_add(d as u32)?;
        i += 1;
    }
    if i == start || i >= s.len() { return None; }
    push_utf8(out, v)?;
    Some(i + 1)
}

pub fn decode(s: &[u8]) -> Option<Vec<u8>> {
    let mut out = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        match s[i] {
            b'<' | b'>' => return None,
            b'&' => i += entity(&s[i..], &mut out)?,
            c => { out.push(c); i += 1 }
        }
    }
    Some(out)
}

fn name_end(s: &[u8], mut i: usize) -> usize {
    while i < s.len() && (s[i].is_ascii_alphanumeric() || s[i] == b'-' || s[i] == b'_' || s[i] == b'!' || s[i] == b':') { i += 1; }
    i
}

/// the markup events of an output; None when it is not of the strict form
/// `<name( name(="escaped")?)*>`, `</name>`, escaped text
pub fn events(s: &[u8]) -> Option<Vec<Ev>> {
    let mut out: Vec<Ev> = Vec::new();
    let mut i = 0;
    while i < s.len() {
        if s[i] != b'<' {
            let at = i;
            while i < s.len() && s[i] != b'<' { i += 1; }
            out.push(Ev::Text(decode(&s[at..i])?));
            continue;
        }
        i += 1;
        if i < s.len() && s[i] == b'/' {
            let e = name_end(s, i + 1);
            if e == i + 1 || s.get(e) != Some(&b'>') { return None; }
            out.push(Ev::Close(s[i + 1..e].to_vec()));
            i = e + 1;
            continue;
        }
        let e = name_end(s, i);
        if e == i { return None; }
        let name = s[i..e].to_vec();
        i = e;
        let mut attrs = Vec::new();
        loop {
            match s.get(i) {
                Some(b'>') => { i += 1; break }
                Some(b' ') => {
                    let e = name_end(s, i + 1);
                    if e == i + 1 { return None; }
                    let k = s[i + 1..e].to_vec();
                    i = e;
                    let mut v = None;
                    if s.get(i) == Some(&b'=') {
                        if s.get(i + 1) != Some(&b'"') { return None; }
                        let at = i + 2;
                        let mut j = at;
                        while j < s.len() && s[j] != b'"' { j += 1; }
                        if j == s.len() { return None; }
                        if s[at..j].contains(&b'\'') { return None; }
                        v = Some(decode(&s[at..j])?);
                        i = j + 1;
                    }
                    attrs.push((k, v));
                }
                _ => return None,
            }
        }
        out.push(Ev::Open(name, attrs));
    }
    Some(out)
}

#[derive(Clone, PartialEq, Debug)]
pub enum Node { El(Vec<u8>, Vec<(Vec<u8>, Option<Vec<u8>>)>, Vec<Node>), Text(Vec<u8>) }

/// the tree of an output; None when it is not well-nested
pub fn tree(s: &[u8]) -> Option<Vec<Node>> {
    let mut stack: Vec<(Vec<u8>, Vec<(Vec<u8>, Option<Vec<u8>>)>, Vec<Node>)> = vec![(Vec::new(), Vec::new(), Vec::new())];
    for e in events(s)? {
        match e {
            Ev::Text(t) => stack.last_mut().unwrap().2.push(Node::Text(t)),
            Ev::Open(n, a) => {
                if VOID.iter().any(|v| v.as_bytes() == &n[..]) { stack.last_mut().unwrap().2.push(Node::El(n, a, Vec::new())) }
                else { stack.push((n, a, Vec::new())) }
            }
            Ev::Close(n) => {
                let (m, a, c) = stack.pop()?;
                if m != n || stack.is_empty() { return None; }
                stack.last_mut().unwrap().2.push(Node::El(m, a, c));
            }
        }
    }
    if stack.len() == 1 { Some(stack.pop()?.2) } else { None }
}
