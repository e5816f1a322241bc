//! Reference models of the wire format, written from its definition and sharing no code with /repo.

/// Verdict of the reference parser. Arguments are byte ranges of the input (item 0 is the message type).
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Verdict {
    Msg { items: Vec<(usize, usize)>, len: usize },
    Err { kind: &'static str, offset: usize },
}

pub const EOF: &str = "unexpected EOF";

fn all_digits(s: &[u8]) -> bool {
    !s.is_empty() && s.iter().all(|b| b"0123456789".contains(b))
}

/// Is the digit string (without leading zeros) at most `limit` (also a digit string)?
fn dec_le(s: &[u8], limit: &[u8]) -> bool {
    s.len() < limit.len() || (s.len() == limit.len() && s <= limit)
}

/// Canonical unsigned decimal: digits only, no superfluous leading zeros, at most `max`.
pub fn canon_unsigned(s: &[u8], max: &str) -> bool {
    all_digits(s) && (s == b"0" || s[0] != b'0') && dec_le(s, max.as_bytes())
}

/// Canonical signed decimal between -`neg` and `pos`.
pub fn canon_signed(s: &[u8], neg: &str, pos: &str) -> bool {
    match s.split_first() {
        Some((b'-', rest)) => rest != b"0" && canon_unsigned(rest, neg),
        _ => canon_unsigned(s, pos),
    }
}

/// The message grammar, as a table-driven scan over the input.
pub fn ref_parse(inp: &[u8]) -> Verdict {
    #[derive(Clone, Copy, PartialEq)]
    enum St {
        Open,
        Count,
        Bar,
        Item,
        Colon,
        Body(usize),
        Comma,
        Close,
    }
    let max = usize::MAX.to_string();
    let fail = |kind, offset| Verdict::Err { kind, offset };
    let mut st = St::Open;
    let mut pos = 0;
    let mut left: Option<usize> = None; // items still to come
    let mut items: Vec<(usize, usize)> = vec![];
    loop {
        let c = inp.get(pos).copied();
        match st {
            St::Count | St::Item => {
                let c = match c {
                    None => return fail(EOF, pos),
                    Some(c) => c,
                };
                if !c.is_ascii_digit() {
                    return fail("expected decimal number", pos);
                }
                let end = pos + inp[pos..].iter().take_while(|b| b.is_ascii_digit()).count();
                let digits = &inp[pos..end];
                if digits.len() > 1 && digits[0] == b'0' {
                    return fail("decimal number has leading zeroes", end);
                }
                if !dec_le(digits, max.as_bytes()) {
                    return fail("decimal number too large", end);
                }
                let value = digits.iter().fold(0u128, |v, d| v * 10 + (d - b'0') as u128) as usize;
                pos = end;
                if st == St::Count {
                    left = Some(value);
                    st = St::Bar;
                } else {
                    items.push((value, 0));
                    st = St::Colon;
                }
            }
            St::Body(n) => {
                if n > inp.len() - pos {
                    return fail(EOF, inp.len());
                }
                *items.last_mut().unwrap() = (pos, pos + n);
                pos += n;
                st = St::Comma;
            }
            St::Open | St::Bar | St::Colon | St::Comma | St::Close => {
                let (want, kind) = match st {
                    St::Open => (b'{', "expected message opener"),
                    St::Bar => (b'|', "expected list sigil"),
                    St::Colon => (b':', "expected string sigil"),
                    St::Comma => (b',', "expected string closer"),
                    _ => (b'}', "expected message closer"),
                };
                match c {
                    None => return fail(EOF, pos),
                    Some(c) if c != want => return fail(kind, pos),
                    _ => pos += 1,
                }
                match st {
                    St::Open => st = St::Count,
                    St::Bar if left == Some(0) => return fail("expected message type", pos),
                    St::Bar => st = St::Item,
                    St::Colon => st = St::Body(items.last().unwrap().0),
                    St::Comma => {
                        let n = left.unwrap() - 1;
                        left = Some(n);
                        if items.len() == 1 && !is_message_type(&inp[items[0].0..items[0].1]) {
                            return fail("invalid message type", pos);
                        }
                        st = if n == 0 { St::Close } else { St::Item };
                    }
                    _ => return Verdict::Msg { items, len: pos },
                }
            }
        }
    }
}

/// Canonical wire form of a message.
pub fn ref_format(items: &[&[u8]]) -> Vec<u8> {
    let mut out = format!("{{{}|", items.len()).into_bytes();
    for i in items {
        out.extend(format!("{}:", i.len()).bytes());
        out.extend_from_slice(i);
        out.push(b',');
    }
    out.push(b'}');
    out
}

pub fn ref_render(ty: &str, args: &[&[u8]]) -> String {
    let mut out = format!("({}", ty);
    for a in args {
        out.push(' ');
        let bare = !a.is_empty() && a.iter().all(|&b| b.is_ascii_alphanumeric() || b"._-".contains(&b));
        if bare {
            out.push_str(std::str::from_utf8(a).unwrap());
            continue;
        }
        out.push('"');
        for &b in a.iter() {
            match b {
                b'\t' => out.push_str("\\t"),
                b'\r' => out.push_str("\\r"),
                b'\n' => out.push_str("\\n"),
                b'\'' => out.push_str("\\'"),
                b'"' => out.push_str("\\\""),
                b'\\' => out.push_str("\\\\"),
                0x20..=0x7e => out.push(b as char),
                _ => out.push_str(&format!("\\x{:02x}", b)),
            }
        }
        out.push('"');
    }
    out.push(')');
    out
}

/// Inverse of the rendering: recovers type and arguments.
pub fn ref_unrender(s: &str) -> Result<(String, Vec<Vec<u8>>), String> {
    let b = s.as_bytes();
    if b.first() != Some(&b'(') || b.last() != Some(&b')') || b.len() < 3 {
        return Err("no parentheses".into());
    }
    let b = &b[1..b.len() - 1];
    let mut words: Vec<Vec<u8>> = vec![];
    let mut i = 0;
    loop {
        let mut w = vec![];
        if b.get(i) == Some(&b'"') {
            i += 1;
            loop {
                match b.get(i) {
                    None => return Err("unterminated quotes".into()),
                    Some(b'"') => {
                        i += 1;
                        break;
                    }
                    Some(b'\\') => {
                        let e = *b.get(i + 1).ok_or("dangling backslash")?;
                        i += 2;
                        w.push(match e {
                            b't' => 9,
                            b'n' => 10,
                            b'r' => 13,
                            b'x' => {
                                let h = b.get(i..i + 2).ok_or("short hex")?;
                                i += 2;
                                u8::from_str_radix(std::str::from_utf8(h).map_err(|_| "hex")?, 16)
                                    .map_err(|_| "bad hex")?
                            }
                            b'"' | b'\'' | b'\\' => e,
                            _ => return Err("unknown escape".into()),
                        });
                    }
                    Some(&c) => {
                        if !(0x20..0x7f).contains(&c) {
                            return Err(format!("raw byte {:#x} in rendering", c));
                        }
                        w.push(c);
                        i += 1;
                    }
                }
            }
        } else {
            while i < b.len() && b[i] != b' ' {
                if !(b[i].is_ascii_alphanumeric() || b"._-".contains(&b[i])) {
                    return Err(format!("unexpected byte {:#x} outside quotes", b[i]));
                }
                w.push(b[i]);
                i += 1;
            }
            if w.is_empty() {
                return Err("empty bare word".into());
            }
        }
        words.push(w);
        match b.get(i) {
            None => break,
            Some(b' ') => i += 1,
            Some(_) => return Err("garbage after word".into()),
        }
    }
    let ty = String::from_utf8(words.remove(0)).map_err(|_| "type not UTF-8")?;
    Ok((ty, words))
}

// -- languages ---------------------------------------------------------------------------------------------

pub fn is_client_id(s: &[u8]) -> bool {
    !s.is_empty() && s.iter().all(|b| b.is_ascii_alphanumeric())
}
pub fn is_identifier(s: &[u8]) -> bool {
    !s.is_empty() && s[0] != b'-' && s.iter().all(|&b| b.is_ascii_alphabetic() || b == b'_' || b == b'-')
}
pub fn split_module(s: &[u8]) -> Option<(&[u8], u16)> {
    let k = s.iter().position(|b| b.is_ascii_digit())?;
    let (name, ver) = s.split_at(k);
    if is_identifier(name) && canon_unsigned(ver, "65535") && ver != b"0" {
        Some((name, std::str::from_utf8(ver).unwrap().parse().unwrap()))
    } else {
        None
    }
}
pub fn is_module(s: &[u8]) -> bool {
    split_module(s).is_some()
}
fn split_dot(s: &[u8]) -> Option<(&[u8], &[u8])> {
    let k = s.iter().position(|&b| b == b'.')?;
    Some((&s[..k], &s[k + 1..]))
}
pub fn split_version(s: &[u8]) -> Option<(&[u8], u16)> {
    let (m, v) = split_dot(s)?;
    if is_module(m) && canon_unsigned(v, "65535") {
        Some((m, std::str::from_utf8(v).unwrap().parse().unwrap()))
    } else {
        None
    }
}
pub fn is_version(s: &[u8]) -> bool {
    split_version(s).is_some()
}
pub fn split_scoped(s: &[u8]) -> Option<(&[u8], &[u8])> {
    let (m, i) = split_dot(s)?;
    if is_module(m) && is_identifier(i) {
        Some((m, i))
    } else {
        None
    }
}
pub fn is_scoped(s: &[u8]) -> bool {
    split_scoped(s).is_some()
}
pub fn is_message_type(s: &[u8]) -> bool {
    s == b"want" || s == b"have" || s == b"nope" || is_scoped(s)
}
