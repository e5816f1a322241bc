//! A dictionary for the generators: the literals that occur in the crate's source. Code that treats one particular
//! number, length or text differently usually names it. Only what is generated depends on it, never a verdict.

use crate::gen::*;
use proptest::prelude::*;
use proptest::sample::select;
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Lits {
    pub ints: Vec<u64>,
    pub texts: Vec<Vec<u8>>,
}

/// Tokenizes Rust source as far as needed to find its literals.
fn scan(src: &[u8], out: &mut Lits) {
    let mut i = 0;
    let at = |k: usize| src.get(k).copied().unwrap_or(0);
    let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    while i < src.len() {
        let c = src[i];
        if c == b'/' && at(i + 1) == b'/' {
            while i < src.len() && src[i] != b'\n' {
                i += 1;
            }
        } else if c == b'/' && at(i + 1) == b'*' {
            i += 2;
            while i < src.len() && !(src[i] == b'*' && at(i + 1) == b'/') {
                i += 1;
            }
            i += 2;
        } else if c == b'r' && (at(i + 1) == b'"' || (at(i + 1) == b'#' && (at(i + 2) == b'"' || at(i + 2) == b'#'))) {
            let mut hashes = 0;
            i += 1;
            while at(i) == b'#' {
                hashes += 1;
                i += 1;
            }
            i += 1;
            let from = i;
            while i < src.len() && !(src[i] == b'"' && (1..=hashes).all(|k| at(i + k) == b'#')) {
                i += 1;
            }
            out.texts.push(src[from.min(src.len())..i].to_vec());
            i += 1 + hashes;
        } else if c == b'"' {
            i += 1;
            let mut t = vec![];
            while i < src.len() && src[i] != b'"' {
                i = unescape(src, i, &mut t);
            }
            out.texts.push(t);
            i += 1;
        } else if c == b'\'' {
            // a character, or a lifetime
            let mut t = vec![];
            let mut e = i + 1;
            if at(e) == b'\\' {
                e = unescape(src, e, &mut t);
            } else if e < src.len() {
                let n = match src[e] {
                    0..=0x7f => 1,
                    0..=0xdf => 2,
                    0..=0xef => 3,
                    _ => 4,
                };
                t.extend_from_slice(&src[e..(e + n).min(src.len())]);
                e += n;
            }
            if at(e) == b'\'' {
                out.texts.push(t);
                i = e + 1;
            } else {
                i += 1;
            }
        } else if c.is_ascii_digit() {
            let from = i;
            while i < src.len() && word(src[i]) {
                i += 1;
            }
            let t: String = src[from..i].iter().filter(|&&c| c != b'_').map(|&c| c as char).collect();
            let (radix, t) = match t.get(..2) {
                Some("0x") => (16, &t[2..]),
                Some("0b") => (2, &t[2..]),
                Some("0o") => (8, &t[2..]),
                _ => (10, &t[..]),
            };
            let end = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"]
                .iter()
                .find_map(|s| t.strip_suffix(s))
                .unwrap_or(t);
            if let Ok(n) = u64::from_str_radix(end, radix) {
                out.ints.push(n);
            }
        } else if word(c) {
            while i < src.len() && word(src[i]) && !(src[i] == b'r' && at(i + 1) == b'"') {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
}

fn unescape(src: &[u8], i: usize, t: &mut Vec<u8>) -> usize {
    let at = |k: usize| src.get(k).copied().unwrap_or(0);
    if src[i] != b'\\' {
        t.push(src[i]);
        return i + 1;
    }
    match at(i + 1) {
        b'n' => t.push(b'\n'),
        b'r' => t.push(b'\r'),
        b't' => t.push(b'\t'),
        b'0' => t.push(0),
        b'x' => {
            let h = std::str::from_utf8(src.get(i + 2..i + 4).unwrap_or(b"0")).unwrap_or("0");
            t.push(u8::from_str_radix(h, 16).unwrap_or(0));
            return i + 4;
        }
        b'u' => {
            let mut k = i + 3;
            let mut n = 0u32;
            while k < src.len() && src[k] != b'}' && k < i + 12 {
                n = n * 16 + (src[k] as char).to_digit(16).unwrap_or(0);
                k += 1;
            }
            if let Some(c) = char::from_u32(n) {
                t.extend(c.to_string().bytes());
            }
            return k + 1;
        }
        b'\n' => {
            let mut k = i + 2;
            while at(k).is_ascii_whitespace() && k < src.len() {
                k += 1;
            }
            return k;
        }
        c => t.push(c),
    }
    i + 2
}

fn files(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let mut v: Vec<_> = std::fs::read_dir(dir).into_iter().flatten().flatten().map(|e| e.path()).collect();
    v.sort();
    for p in v {
        if p.is_dir() {
            files(&p, out);
        } else if p.extension().map_or(false, |e| e == "rs") && p.file_name().map_or(true, |n| n != "tests.rs") {
            out.push(p);
        }
    }
}

pub fn lits() -> &'static Lits {
    static LITS: OnceLock<Lits> = OnceLock::new();
    LITS.get_or_init(|| {
        let mut l = Lits { ints: vec![4, 8, 10, 16, 64, 100, 255, 1024], texts: vec![b"want".to_vec(), b"core1".to_vec(), b"a".to_vec()] };
        let mut fs = vec![];
        files(std::path::Path::new("/repo/src"), &mut fs);
        for f in fs {
            let src = std::fs::read_to_string(&f).unwrap_or_default();
            // unit tests at the end of a file are full of texts that do not matter
            let end = ["#[cfg(test)]\nmod tests {", "#[cfg(test)]\nmod test {"].iter().filter_map(|m| src.find(m)).min().unwrap_or(src.len());
            scan(src[..end].as_bytes(), &mut l);
        }
        // a number shifted or multiplied, a text split at its blanks
        l.ints.sort();
        l.ints.dedup();
        l.ints.truncate(400);
        l.texts.retain(|t| t.len() <= 40);
        l.texts.sort();
        l.texts.dedup();
        l.texts.truncate(800);
        l
    })
}

/// one of the numbers, or a neighbour
pub fn lit_int() -> BoxedStrategy<u64> {
    (select(lits().ints.clone()), one_of![3 => Just(1u64), 1 => Just(0u64), 1 => Just(2u64)])
        .prop_map(|(n, d)| n.saturating_add(d).saturating_sub(1))
        .boxed()
}
/// the same, as a size or number of something
pub fn lit_size(max: usize) -> BoxedStrategy<usize> {
    let mut v: Vec<usize> = lits().ints.iter().filter(|&&n| n >= 4 && n <= max as u64).map(|&n| n as usize).collect();
    if v.is_empty() {
        v.push(max);
    }
    (select(v), one_of![3 => Just(1usize), 1 => Just(0usize), 1 => Just(2usize)]).prop_map(move |(n, d)| (n + d - 1).min(max)).boxed()
}
pub fn lit_bytes() -> BoxedStrategy<Vec<u8>> {
    select(lits().texts.clone()).boxed()
}
pub fn lit_byte() -> BoxedStrategy<u8> {
    let mut v: Vec<u8> = lits().ints.iter().filter(|&&n| n < 256).map(|&n| n as u8).collect();
    v.extend(lits().texts.iter().filter(|t| t.len() == 1).map(|t| t[0]));
    select(v).boxed()
}
pub fn lit_text(ok: impl Fn(&str) -> bool, otherwise: &str) -> BoxedStrategy<String> {
    let mut v: Vec<String> = lits().texts.iter().filter_map(|t| String::from_utf8(t.clone()).ok()).filter(|t| ok(t)).collect();
    if v.is_empty() {
        v.push(otherwise.into());
    }
    select(v).boxed()
}
/// so many copies of one or a few things
pub fn cycled<T: Clone + std::fmt::Debug + 'static>(n: BoxedStrategy<usize>, what: BoxedStrategy<T>) -> BoxedStrategy<Vec<T>> {
    (n, proptest::collection::vec(what, 1..4)).prop_map(|(n, w)| (0..n).map(|i| w[i % w.len()].clone()).collect()).boxed()
}
pub fn lit_arg() -> BoxedStrategy<Vec<u8>> {
    one_of![
        3 => lit_bytes(),
        2 => proptest::collection::vec(lit_byte(), 1..5),
        2 => cycled(lit_size(1100), one_of![1 => any::<u8>(), 2 => select(b"aZ09{} \"\xc3".to_vec())].boxed()),
        1 => lit_int().prop_map(|n| n.to_string().into_bytes()),
        1 => (lit_bytes(), lit_bytes()).prop_map(|(a, b)| [a, b].concat()),
        1 => (lit_bytes(), edit()).prop_map(|(mut a, e)| { apply_edits(&mut a, &[e]); a }),
    ]
    .boxed()
}

#[test]
fn scanned() {
    let mut l = Lits::default();
    scan(br##"fn f<'a>(x: &'a str) { g(b"a\x41", 'x', b'\n', 1_000u32, 0xff, "q\"z", r#"raw"#) } // "no" 77"##, &mut l);
    assert_eq!(l.ints, [1000, 255]);
    assert_eq!(l.texts, [&b"aA"[..], b"x", b"\n", b"q\"z", b"raw"]);
}
