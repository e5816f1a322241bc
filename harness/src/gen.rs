//! Generators shared by the checks.

use crate::fw::B;
use crate::lit::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

pub const PREDEF: [&str; 11] = [
    "want",
    "have",
    "nope",
    "core1.client-make",
    "core1.client-new",
    "core1.client-end",
    "posix1.client-hello",
    "posix1.parent-hello",
    "posix1.server-hello",
    "posix1.stdin-hello",
    "posix1.stdout-hello",
];

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Msg {
    pub ty: String,
    pub args: Vec<B>,
}
impl Msg {
    pub fn new(ty: &str, args: &[&[u8]]) -> Msg {
        Msg { ty: ty.into(), args: args.iter().map(|a| B(a.to_vec())).collect() }
    }
    pub fn items(&self) -> Vec<&[u8]> {
        let mut v: Vec<&[u8]> = vec![self.ty.as_bytes()];
        v.extend(self.args.iter().map(|a| &a.0[..]));
        v
    }
    pub fn wire(&self) -> Vec<u8> {
        crate::refmodel::ref_format(&self.items())
    }
}

pub fn ident() -> BoxedStrategy<String> {
    one_of![
        6 => "[A-Za-z_][A-Za-z_-]{0,8}",
        1 => "[A-Za-z_]",
        1 => "[_]{1,3}[-_]{0,3}",
        1 => "[A-Za-z_][A-Za-z_-]{20,60}",
        1 => lit_text(|t| crate::refmodel::is_identifier(t.as_bytes()), "x"),
        1 => cycled(lit_size(100), select(vec!['a', 'Z', '_']).boxed()).prop_map(|v| v.into_iter().collect()),
    ]
    .boxed()
}
pub fn major() -> BoxedStrategy<u16> {
    one_of![4 => 1u16..12, 2 => 1u16.., 1 => select(vec![1u16, 9, 10, 99, 100, 9999, 10000, 65534, 65535]), 1 => lit_int().prop_map(|n| n.clamp(1, 65535) as u16)].boxed()
}
pub fn minor() -> BoxedStrategy<u16> {
    one_of![4 => 0u16..12, 2 => any::<u16>(), 1 => select(vec![0u16, 9, 10, 99, 100, 9999, 10000, 65534, 65535]), 1 => lit_int().prop_map(|n| n.min(65535) as u16)].boxed()
}
pub fn module() -> BoxedStrategy<String> {
    one_of![
        5 => (ident(), major()).prop_map(|(i, m)| format!("{}{}", i, m)),
        1 => select(vec!["core1", "posix1", "core2", "posix2", "test1", "core10", "core65535"]).prop_map(String::from),
        1 => lit_text(|t| crate::refmodel::is_module(t.as_bytes()), "core1"),
    ]
    .boxed()
}
pub fn version() -> BoxedStrategy<String> {
    (module(), minor()).prop_map(|(m, v)| format!("{}.{}", m, v)).boxed()
}
pub fn scoped() -> BoxedStrategy<String> {
    (module(), ident()).prop_map(|(m, i)| format!("{}.{}", m, i)).boxed()
}
pub fn msg_type() -> BoxedStrategy<String> {
    one_of![
        3 => select(PREDEF.to_vec()).prop_map(String::from),
        3 => scoped(),
        1 => lit_text(|t| crate::refmodel::is_message_type(t.as_bytes()), "want"),
    ]
    .boxed()
}
pub fn client_id() -> BoxedStrategy<String> {
    one_of![5 => "[A-Za-z0-9]{1,6}", 1 => "[A-Za-z0-9]{30,70}", 1 => "[0a]{1,4}",
        1 => lit_text(|t| crate::refmodel::is_client_id(t.as_bytes()), "a"),
        1 => cycled(lit_size(100), select(vec!['a', 'Z', '0']).boxed()).prop_map(|v| v.into_iter().collect())].boxed()
}

pub fn wire_soup(len: std::ops::Range<usize>) -> BoxedStrategy<Vec<u8>> {
    vec(
        one_of![
            4 => select(b"{}|:,".to_vec()),
            3 => select(b"0123456789".to_vec()),
            1 => select(b"want.core1-".to_vec()),
            1 => any::<u8>(),
            1 => lit_byte(),
        ],
        len,
    )
    .boxed()
}

/// A byte string as it might appear as an argument.
pub fn arg_bytes() -> BoxedStrategy<B> {
    one_of![
        2 => Just(vec![]),
        4 => "[A-Za-z0-9._-]{1,12}".prop_map(String::into_bytes),
        3 => vec(any::<u8>(), 1..12),
        2 => wire_soup(1..20),
        1 => select(vec!["{1|4:want,}", "{2|4:want,5:core1,}", ",", "}", "0:,", "{", "\"", "\\", " ", "a b", "\u{e9}", "\n", "\0"]).prop_map(|s| s.as_bytes().to_vec()),
        1 => "\\PC{1,8}".prop_map(String::into_bytes),
        1 => (select(vec![9usize, 10, 11, 99, 100, 101, 255, 256]), any::<u8>()).prop_map(|(n, b)| vec![b; n]),
        2 => lit_arg(),
    ]
    .prop_map(B)
    .boxed()
}

pub fn args(max: usize) -> BoxedStrategy<Vec<B>> {
    one_of![
        6 => vec(arg_bytes(), 0..max.min(6)),
        1 => vec(arg_bytes(), 0..max.max(1)),
        1 => vec("[a-z]{0,2}".prop_map(|s| B(s.into_bytes())), 0..max * 3),
        1 => cycled(lit_size(if max > 4 { 300 } else { max * 3 }), "[a-z]{0,2}".prop_map(|s| B(s.into_bytes())).boxed()),
    ]
    .boxed()
}

pub fn msg(max_args: usize) -> BoxedStrategy<Msg> {
    (msg_type(), args(max_args)).prop_map(|(ty, args)| Msg { ty, args }).boxed()
}

/// A message with one argument padded so that the wire form gets close to `target` bytes.
pub fn msg_near(target: usize) -> BoxedStrategy<Msg> {
    (msg(4), 0usize..14, any::<u8>())
        .prop_map(move |(mut m, d, fill)| {
            m.args.push(B(vec![]));
            let base = m.wire().len();
            let want = (target + 7).saturating_sub(d);
            if want > base {
                *m.args.last_mut().unwrap() = B(vec![fill; (want - base).saturating_sub(2)]);
            }
            m
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
pub enum Edit {
    Insert(Index16, u8),
    Delete(Index16),
    Replace(Index16, u8),
    Truncate(Index16),
    Dup(Index16, u8),
    Swap(Index16),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, Hash)]
pub struct Index16(pub u16);
impl Index16 {
    /// The index that denotes `k` of `n`.
    pub fn exactly(k: usize, n: usize) -> Index16 {
        Index16((((k << 16) + n - 1) / n) as u16)
    }
    pub fn of(self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.0 as usize * n) >> 16
        }
    }
}
pub fn idx() -> BoxedStrategy<Index16> {
    any::<u16>().prop_map(Index16).boxed()
}
pub fn edit_byte() -> BoxedStrategy<u8> {
    one_of![
        3 => select(b"{}|:,0123456789.-_+ \ntfaZz".to_vec()),
        1 => any::<u8>(),
    ]
    .boxed()
}
pub fn edit() -> BoxedStrategy<Edit> {
    one_of![
        3 => (idx(), edit_byte()).prop_map(|(i, b)| Edit::Insert(i, b)),
        3 => idx().prop_map(Edit::Delete),
        4 => (idx(), edit_byte()).prop_map(|(i, b)| Edit::Replace(i, b)),
        1 => idx().prop_map(Edit::Truncate),
        1 => (idx(), 1u8..8).prop_map(|(i, n)| Edit::Dup(i, n)),
        1 => idx().prop_map(Edit::Swap),
    ]
    .boxed()
}
pub fn apply_edits(v: &mut Vec<u8>, edits: &[Edit]) {
    for e in edits {
        match e {
            Edit::Insert(i, b) => {
                let k = i.of(v.len() + 1);
                v.insert(k, *b)
            }
            Edit::Delete(i) if !v.is_empty() => {
                v.remove(i.of(v.len()));
            }
            Edit::Replace(i, b) if !v.is_empty() => {
                let k = i.of(v.len());
                v[k] = *b
            }
            Edit::Truncate(i) => v.truncate(i.of(v.len() + 1)),
            Edit::Dup(i, n) if !v.is_empty() => {
                let k = i.of(v.len());
                let e = (k + *n as usize).min(v.len());
                let part = v[k..e].to_vec();
                v.splice(k..k, part);
            }
            Edit::Swap(i) if v.len() > 1 => {
                let k = i.of(v.len() - 1);
                v.swap(k, k + 1)
            }
            _ => {}
        }
    }
}

pub fn mutated(base: BoxedStrategy<Vec<u8>>) -> BoxedStrategy<Vec<u8>> {
    (base, vec(edit(), 1..4))
        .prop_map(|(mut v, e)| {
            apply_edits(&mut v, &e);
            v
        })
        .boxed()
}

pub fn numberish() -> BoxedStrategy<String> {
    one_of![
        6 => (0u32..20).prop_map(|n| n.to_string()),
        2 => select(vec![
            "", "00", "01", "007", "+1", "-1", "-0", "+0", " 1", "1 ", "1_0", "0x1", "1e3", "255", "256", "65535", "65536",
            "4294967295", "4294967296", "9223372036854775807", "9223372036854775808",
            "18446744073709551615", "18446744073709551616", "18446744073709551614", "18446744073709551609", "99999999999999999999",
            "340282366920938463463374607431768211455", "184467440737095516150", "018446744073709551615",
            "18446744073709551600", "9999999999999999999", "10000000000000000000",
        ]).prop_map(String::from),
        1 => any::<u64>().prop_map(|n| n.to_string()),
        1 => lit_int().prop_map(|n| n.to_string()),
        1 => "[0-9]{1,25}",
    ]
    .boxed()
}

/// Messages assembled from raw parts, whose counts and lengths may lie.
pub fn assembled() -> BoxedStrategy<Vec<u8>> {
    (
        numberish(),
        crate::oneof::opt_weighted(0.75, 0i8..3),
        vec((crate::oneof::opt_weighted(0.15, numberish()), one_of![3 => arg_bytes(), 2 => msg_type().prop_map(|s| B(s.into_bytes()))]), 0..6),
        msg_type(),
        one_of![8 => Just("}".to_string()), 1 => Just(String::new()), 1 => "[{}|:,0-9a]{1,3}"],
    )
        .prop_map(|(count, honest, mut parts, ty, tail)| {
            if parts.len() > 1 {
                parts[0] = (None, B(ty.into_bytes()));
            }
            let n = match honest {
                Some(d) => (parts.len() as i64 + if d == 2 { -1 } else if d == 1 { 1 } else { 0 }).max(0).to_string(),
                None => count,
            };
            let mut out = format!("{{{}|", n).into_bytes();
            for (lie, p) in &parts {
                out.extend(lie.clone().unwrap_or(p.len().to_string()).bytes());
                out.push(b':');
                out.extend_from_slice(p);
                out.push(b',');
            }
            out.extend(tail.bytes());
            out
        })
        .boxed()
}

/// Everything one may feed to the parser.
pub fn parser_input() -> BoxedStrategy<B> {
    let valid = || msg(12).prop_map(|m| m.wire()).boxed();
    one_of![
        3 => valid(),
        2 => (valid(), one_of![wire_soup(0..12), vec(any::<u8>(), 0..12).boxed(), valid()]).prop_map(|(mut a, b)| { a.extend(b); a }),
        6 => mutated(valid()),
        2 => (valid(), idx()).prop_map(|(mut v, i)| { let k = i.of(v.len() + 1); v.truncate(k); v }),
        4 => assembled(),
        2 => mutated(assembled()),
        2 => wire_soup(0..24),
        1 => vec(any::<u8>(), 0..24),
        1 => wire_soup(0..24).prop_map(|mut v| { v.insert(0, b'{'); v }),
        1 => msg_near(1024).prop_map(|m| m.wire()),
        1 => (msg_type(), vec(arg_bytes(), 0..300)).prop_map(|(ty, args)| Msg { ty, args }.wire()),
        1 => (msg_type(), 900usize..5000, any::<u8>()).prop_map(|(ty, n, b)| Msg { ty, args: vec![B(vec![b; n])] }.wire()),
    ]
    .prop_map(B)
    .boxed()
}

/// Strings in or close to the language of one of the argument types.
pub fn argish() -> BoxedStrategy<B> {
    let base = || -> BoxedStrategy<Vec<u8>> {
        one_of![
            3 => numberish().prop_map(String::into_bytes),
            2 => int_text().prop_map(|(_, t)| t.into_bytes()),
            1 => select(vec!["t", "f", "T", "F", "true", "false", "1", "0", "tt", "y"]).prop_map(|s| s.as_bytes().to_vec()),
            2 => client_id().prop_map(String::into_bytes),
            2 => ident().prop_map(String::into_bytes),
            2 => module().prop_map(String::into_bytes),
            2 => version().prop_map(String::into_bytes),
            2 => scoped().prop_map(String::into_bytes),
            2 => msg_type().prop_map(String::into_bytes),
            1 => "\\PC{0,6}".prop_map(String::into_bytes),
            1 => vec(any::<u8>(), 0..6),
            2 => lit_arg(),
        ]
        .boxed()
    };
    let special = select(vec![
        "", "+5", "+0", "-0", "-5", "--5", "+-5", "-007", "00", "core0", "core01", "core1.", "core1.0", "core1.00", "core1.+5", "core1.-0",
        "core65535", "core65536", "core1.65535", "core1.65536", "core+1.2", "core1.core", "core1.-a", "core1.a.b", ".", "..", "1core.a",
        "core1.a1", "want", "Want", "wan", "wantt", "have", "nope", "-core1", "core-1", "_1", "_1._", "core1.want", "\u{663}", "core\u{663}",
        "core1.\u{663}", "c\u{f6}re1.a", "\u{ff21}", "core1\0.a", "core1.a\0", "core 1.a", "core1. a", "a\n", "18446744073709551616", "127", "128",
        "-128", "-129", "32767", "32768", "-32768", "-32769", "2147483648", "-2147483649", "core100000.a", "core1.100000", "core4294967297.a",
        "core1.4294967297", "core65537", "core1.65537", "core9223372036854775808",
    ])
    .prop_map(|s| s.as_bytes().to_vec());
    one_of![
        4 => base(),
        5 => mutated(base()),
        2 => special.clone(),
        1 => mutated(special.boxed()),
        1 => (base(), select(vec!["+", "-", " ", "0", "\n", "_", "\t", "00", "\u{a0}"]), any::<bool>()).prop_map(|(mut v, x, front)| {
            if front { v.splice(0..0, x.bytes()); } else { v.extend(x.bytes()); }
            v
        }),
    ]
    .prop_map(B)
    .boxed()
}

pub const WIDTHS: [&str; 12] = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "i128", "u128", "isize", "usize"];
pub fn int_range(width: &str) -> (i128, u128) {
    match width {
        "i8" => (i8::MIN as i128, i8::MAX as u128),
        "u8" => (0, u8::MAX as u128),
        "i16" => (i16::MIN as i128, i16::MAX as u128),
        "u16" => (0, u16::MAX as u128),
        "i32" => (i32::MIN as i128, i32::MAX as u128),
        "u32" => (0, u32::MAX as u128),
        "i64" => (i64::MIN as i128, i64::MAX as u128),
        "u64" => (0, u64::MAX as u128),
        "i128" => (i128::MIN, i128::MAX as u128),
        "u128" => (0, u128::MAX),
        "isize" => (isize::MIN as i128, isize::MAX as u128),
        "usize" => (0, usize::MAX as u128),
        _ => panic!("width"),
    }
}

/// (width, decimal text of a value of that width), rich in boundaries
pub fn int_text() -> BoxedStrategy<(String, String)> {
    (select(WIDTHS.to_vec()), any::<u128>(), 0u32..128, 0u32..39, (0u8..9, lit_int()), any::<bool>())
        .prop_map(|(w, r, shift, pow, (how, lit), neg)| {
            let (min, max) = int_range(w);
            let p = 10u128.checked_pow(pow).unwrap_or(u128::MAX);
            let mag = match how {
                0 => r >> shift,
                1 => p,
                2 => p - 1,
                3 => max,
                4 => max - 1,
                5 => (r >> shift) % 300,
                6 => max / 10,
                8 => lit as u128,
                _ => 1u128 << shift,
            };
            let t = if neg && min < 0 {
                let lim = min.unsigned_abs();
                let m = match how {
                    3 => lim,
                    4 => lim - 1,
                    _ => mag.min(lim),
                };
                if m == 0 {
                    "0".to_string()
                } else {
                    format!("-{}", m)
                }
            } else {
                mag.min(max).to_string()
            };
            (w.to_string(), t)
        })
        .boxed()
}
