//! C07, C08, C09: argument values and identifiers.

use crate::fw::*;
use crate::gen::*;
use crate::refmodel::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::os::unix::ffi::OsStrExt;
use std::path::Path;
use vt6::common::core::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Val {
    Bool(bool),
    /// width, decimal text
    Int(String, String),
    Str(String),
    Bytes(B),
    Path(B),
    Client(String),
    Ident(String),
    Module(String),
    /// module, minor version
    Version(String, u16),
    Scoped(String),
    MsgType(String),
    None,
    Some(Box<Val>),
}

struct Fwd<'a, T: ?Sized>(&'a T);
impl<'a, T: EncodeArgument + ?Sized> EncodeArgument for Fwd<'a, T> {
    fn get_size(&self) -> usize {
        self.0.get_size()
    }
    fn encode(&self, buf: &mut [u8]) {
        self.0.encode(buf)
    }
    fn encode_to_vector(&self) -> Vec<u8> {
        self.0.encode_to_vector()
    }
}

macro_rules! int_case {
    ($w:expr, $text:expr, $m:ident) => {
        match &$w[..] {
            "i8" => $m!(i8, $text),
            "u8" => $m!(u8, $text),
            "i16" => $m!(i16, $text),
            "u16" => $m!(u16, $text),
            "i32" => $m!(i32, $text),
            "u32" => $m!(u32, $text),
            "i64" => $m!(i64, $text),
            "u64" => $m!(u64, $text),
            "i128" => $m!(i128, $text),
            "u128" => $m!(u128, $text),
            "isize" => $m!(isize, $text),
            "usize" => $m!(usize, $text),
            _ => panic!("width"),
        }
    };
}

fn path(b: &[u8]) -> &Path {
    Path::new(std::ffi::OsStr::from_bytes(b))
}

impl Val {
    pub fn with_arg<R>(&self, f: impl FnOnce(&dyn EncodeArgument) -> R) -> R {
        match self {
            Val::Bool(b) => f(b),
            Val::Int(w, t) => {
                macro_rules! go {
                    ($t:ty, $x:expr) => {
                        f(&$x.parse::<$t>().unwrap())
                    };
                }
                int_case!(w, t, go)
            }
            Val::Str(s) => f(&Fwd(s.as_str())),
            Val::Bytes(b) => f(&Fwd(&b.0[..])),
            Val::Path(b) => f(&Fwd(path(b))),
            Val::Client(s) => f(&ClientID::parse(s).expect("client ID")),
            Val::Ident(s) => f(&Identifier::parse(s).expect("identifier")),
            Val::Module(s) => f(&ModuleIdentifier::parse(s).expect("module")),
            Val::Version(m, v) => f(&ModuleIdentifier::parse(m).expect("module").with_minor_version(*v)),
            Val::Scoped(s) => f(&ScopedIdentifier::parse(s).expect("scoped identifier")),
            Val::MsgType(s) => f(&MessageType::parse(s).expect("message type")),
            Val::None => f(&None::<&str>),
            Val::Some(v) => match &**v {
                Val::Str(s) => f(&Some(s.as_str())),
                Val::Bytes(b) => f(&Some(&b.0[..])),
                Val::Path(b) => f(&Some(path(b))),
                Val::Bool(b) => f(&Some(b)),
                Val::Int(w, t) => {
                    macro_rules! go {
                        ($t:ty, $x:expr) => {
                            f(&Some(&$x.parse::<$t>().unwrap()))
                        };
                    }
                    int_case!(w, t, go)
                }
                Val::Client(s) => f(&Some(&ClientID::parse(s).unwrap())),
                Val::Ident(s) => f(&Some(&Identifier::parse(s).unwrap())),
                Val::Module(s) => f(&Some(&ModuleIdentifier::parse(s).unwrap())),
                Val::Version(m, v) => f(&Some(&ModuleIdentifier::parse(m).unwrap().with_minor_version(*v))),
                Val::Scoped(s) => f(&Some(&ScopedIdentifier::parse(s).unwrap())),
                Val::MsgType(s) => f(&Some(&MessageType::parse(s).unwrap())),
                Val::None => f(&Some(&None::<&str>)),
                Val::Some(_) => panic!("nested optional"),
            },
        }
    }

    pub fn expected(&self) -> Vec<u8> {
        match self {
            Val::Bool(b) => vec![if *b { b't' } else { b'f' }],
            Val::Int(_, t) => t.clone().into_bytes(),
            Val::Str(s) | Val::Client(s) | Val::Ident(s) | Val::Module(s) | Val::Scoped(s) | Val::MsgType(s) => {
                s.clone().into_bytes()
            }
            Val::Bytes(b) | Val::Path(b) => b.0.clone(),
            Val::Version(m, v) => format!("{}.{}", m, v).into_bytes(),
            Val::None => vec![],
            Val::Some(v) => v.expected(),
        }
    }

    /// Decodes `enc` as this value's type and compares.
    fn decodes_back(&self, enc: &[u8]) -> Res {
        macro_rules! back {
            ($t:ty, $exp:expr) => {{
                let exp: $t = $exp;
                ensure_eq!(<$t>::decode_argument(enc), Some(exp), "decoded as {}", stringify!($t));
                if !enc.is_empty() {
                    ensure_eq!(
                        <Option<$t>>::decode_argument(enc),
                        Some(Some($exp)),
                        "decoded as optional {}",
                        stringify!($t)
                    );
                }
            }};
        }
        match self {
            Val::Bool(b) => back!(bool, *b),
            Val::Int(w, t) => {
                macro_rules! go {
                    ($t:ty, $x:expr) => {
                        back!($t, $x.parse::<$t>().unwrap())
                    };
                }
                int_case!(w, t, go)
            }
            Val::Str(s) => back!(&str, s.as_str()),
            Val::Bytes(b) => back!(&[u8], &b.0[..]),
            Val::Path(b) => {
                let p = <&Path>::decode_argument(enc).ok_or("path not decoded")?;
                ensure_eq!(B(p.as_os_str().as_bytes().to_vec()), *b, "decoded path bytes");
            }
            Val::Client(s) => back!(ClientID<'_>, ClientID::parse(s).unwrap()),
            Val::Ident(s) => back!(Identifier<'_>, Identifier::parse(s).unwrap()),
            Val::Module(s) => back!(ModuleIdentifier<'_>, ModuleIdentifier::parse(s).unwrap()),
            Val::Version(m, v) => {
                let mi = ModuleIdentifier::parse(m).unwrap();
                let d = ModuleVersion::decode_argument(enc).ok_or("module version not decoded")?;
                ensure_eq!(d, mi.with_minor_version(*v), "decoded module version");
                ensure_eq!(d.minor_version(), *v, "decoded minor version");
                ensure_eq!(d.module().as_str(), m, "decoded module");
            }
            Val::Scoped(s) => back!(ScopedIdentifier<'_>, ScopedIdentifier::parse(s).unwrap()),
            Val::MsgType(s) => back!(MessageType<'_>, MessageType::parse(s).unwrap()),
            Val::None => {
                ensure_eq!(<Option<&str>>::decode_argument(enc), Some(None), "decoded optional string");
                ensure_eq!(<Option<u32>>::decode_argument(enc), Some(None), "decoded optional integer");
                ensure_eq!(<Option<bool>>::decode_argument(enc), Some(None), "decoded optional boolean");
                ensure_eq!(<Option<ClientID<'_>>>::decode_argument(enc), Some(None), "decoded optional client ID");
            }
            Val::Some(v) if !enc.is_empty() => v.decodes_back(enc)?,
            Val::Some(_) => {}
        }
        Ok(())
    }
}

fn plain_val() -> BoxedStrategy<Val> {
    one_of![
        1 => any::<bool>().prop_map(Val::Bool),
        6 => int_text().prop_map(|(w, t)| Val::Int(w, t)),
        2 => "\\PC{0,12}".prop_map(Val::Str),
        1 => "[ -~\\n]{0,40}".prop_map(Val::Str),
        2 => vec(any::<u8>(), 0..40).prop_map(|b| Val::Bytes(B(b))),
        1 => vec(any::<u8>(), 900..1100).prop_map(|b| Val::Bytes(B(b))),
        2 => vec(one_of![3 => 1u8..=255, 1 => Just(b'/')], 0..40).prop_map(|b| Val::Path(B(b))),
        1 => client_id().prop_map(Val::Client),
        1 => ident().prop_map(Val::Ident),
        1 => module().prop_map(Val::Module),
        2 => (module(), minor()).prop_map(|(m, v)| Val::Version(m, v)),
        1 => scoped().prop_map(Val::Scoped),
        1 => msg_type().prop_map(Val::MsgType),
        1 => Just(Val::None),
    ]
    .boxed()
}
pub fn val() -> BoxedStrategy<Val> {
    one_of![
        4 => plain_val(),
        1 => plain_val().prop_map(|v| Val::Some(Box::new(v))),
    ]
    .boxed()
}

fn c07_one(v: &Val) -> Res {
    let exp = v.expected();
    let size = v.with_arg(|a| a.get_size());
    ensure_eq!(size, exp.len(), "announced size");
    let mut buf = vec![0xEEu8; size];
    v.with_arg(|a| a.encode(&mut buf));
    ensure_eq!(B(buf.clone()), B(exp.clone()), "encoding");
    ensure_eq!(B(v.with_arg(|a| a.encode_to_vector())), B(exp), "encode_to_vector()");
    v.decodes_back(&buf)
}

pub fn c07(s: &mut Suite) {
    s.sub(
        "values",
        (320_000, 12_000_000),
        "values whose encoding has at least 2 bytes",
        val(),
        |v, o| {
            o.nontrivial_if(v.expected().len() >= 2);
            match v {
                Val::Int(_, t) => {
                    o.class("integer");
                    o.class_if(t.starts_with('-'), "negative integer");
                    o.class_if(t.len() > 19, "integer over 64 bits");
                }
                Val::Some(_) => o.class("present optional"),
                Val::None => o.class("absent optional"),
                Val::Str(_) | Val::Bytes(_) | Val::Path(_) => o.class("text"),
                Val::Bool(_) => o.class("boolean"),
                _ => o.class("identifier"),
            }
            c07_one(v)
        },
    );
    s.each(
        "boundaries",
        "for every width: every power of ten and of two, those plus and minus 1, the extremes and their neighbours, both signs",
        WIDTHS.iter().map(|w| w.to_string()),
        |w, o| {
            o.nontrivial = true;
            let (min, max) = int_range(w);
            let mut mags: Vec<u128> = vec![0, max, max - 1, min.unsigned_abs(), min.unsigned_abs().saturating_sub(1)];
            for k in 0..128 {
                mags.extend([1u128 << k, (1u128 << k) - 1, (1u128 << k) + 1]);
            }
            let mut p = 1u128;
            for _ in 0..39 {
                mags.extend([p, p - 1, p + 1, p.saturating_mul(9)]);
                p = p.saturating_mul(10);
            }
            for m in mags {
                if m <= max {
                    c07_one(&Val::Int(w.clone(), m.to_string())).map_err(|e| format!("{} {}: {}", w, m, e))?;
                }
                if m > 0 && m <= min.unsigned_abs() {
                    c07_one(&Val::Int(w.clone(), format!("-{}", m))).map_err(|e| format!("{} -{}: {}", w, m, e))?;
                }
            }
            Ok(())
        },
    );
    s.each("small_ints", "every value of the 8-bit and 16-bit types", (-32768i32..65536).step_by(1024), |&base, o| {
        o.nontrivial = true;
        for v in base..base + 1024 {
            for w in ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "usize"] {
                let (min, max) = int_range(w);
                if v as i128 >= min && (v < 0 || v as u128 <= max) {
                    c07_one(&Val::Int(w.into(), v.to_string())).map_err(|e| format!("{} {}: {}", w, v, e))?;
                }
            }
        }
        Ok(())
    });
}

// -- C08 ---------------------------------------------------------------------------------------------------

fn c08_one(x: &[u8], o: &mut Obs) -> Res {
    let mut accepted = 0;
    macro_rules! check {
        ($t:ty, $member:expr, $enc:expr) => {{
            let name = stringify!($t);
            let member: bool = $member;
            match <$t>::decode_argument(x) {
                Some(v) => {
                    ensure!(member, "{} accepts {:?}, which is not canonical (decoded as {:?})", name, B(x.to_vec()), v);
                    #[allow(clippy::redundant_closure_call)]
                    let again: Vec<u8> = $enc(&v);
                    ensure_eq!(B(again), B(x.to_vec()), "{} re-encoded", name);
                    accepted += 1;
                }
                None => ensure!(!member, "{} rejects the canonical encoding {:?}", name, B(x.to_vec())),
            }
            // the same, as an optional value
            match <Option<$t>>::decode_argument(x) {
                Some(None) => ensure!(x.is_empty(), "optional {} absent for {:?}", name, B(x.to_vec())),
                Some(Some(_)) => ensure!(member && !x.is_empty(), "optional {} accepts {:?}", name, B(x.to_vec())),
                None => ensure!(!member && !x.is_empty(), "optional {} rejects {:?}", name, B(x.to_vec())),
            }
        }};
    }
    fn enc<T: EncodeArgument + ?Sized>(v: &T) -> Vec<u8> {
        v.encode_to_vector()
    }
    check!(bool, x == b"t" || x == b"f", enc);
    macro_rules! ints {
        ($($t:ident),*) => {$({
            let (min, max) = int_range(stringify!($t));
            check!($t, canon_signed(x, &min.unsigned_abs().to_string(), &max.to_string()) && (min < 0 || x[0] != b'-'), enc);
        })*};
    }
    ints!(i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize);
    check!(&str, std::str::from_utf8(x).is_ok(), |v: &&str| enc(*v));
    check!(ClientID<'_>, is_client_id(x), enc);
    check!(Identifier<'_>, is_identifier(x), enc);
    check!(ModuleIdentifier<'_>, is_module(x), enc);
    check!(ModuleVersion<'_>, is_version(x), enc);
    check!(ScopedIdentifier<'_>, is_scoped(x), enc);
    check!(MessageType<'_>, is_message_type(x), enc);
    o.nontrivial_if(x.len() >= 2);
    o.class(if accepted == 0 {
        "accepted by no type"
    } else if accepted == 1 {
        "accepted by one type"
    } else {
        "accepted by several types"
    });
    Ok(())
}

pub fn c08(s: &mut Suite) {
    s.sub("near_misses", (320_000, 12_000_000), "at least 2 bytes", argish(), |x, o| c08_one(x, o));
    s.raw("decode_bytes", "at least 2 bytes", argish().prop_map(|b| b.0).boxed(), |d| B(d.to_vec()), |x, o| c08_one(x, o));
    let alphabet = b"0159+- tfa._\xc3\xa9\n";
    let maxlen = if s.tier == Tier::Quick { 4 } else { 5 };
    let total: u64 = (0..=maxlen).map(|n| (alphabet.len() as u64).pow(n)).sum();
    s.each(
        "all_short",
        "every string over the 15 bytes 0159+- tfa._\\xc3\\xa9\\n up to length 4 (thorough: 5), in blocks of 500",
        (0..total).step_by(500),
        |&start, o| {
            for k in start..(start + 500).min(total) {
                let mut k = k;
                let mut n = 0;
                while k >= 15u64.pow(n) {
                    k -= 15u64.pow(n);
                    n += 1;
                }
                let mut x = vec![];
                for _ in 0..n {
                    x.push(alphabet[(k % 15) as usize]);
                    k /= 15;
                }
                c08_one(&x, o)?;
            }
            Ok(())
        },
    );
    s.each("all_numbers", "every string of 1 to 6 digits with every sign prefix, in blocks", 0..1112u32, |&block, o| {
        for k in block * 1000..(block + 1) * 1000 {
            let mut k = k;
            let mut n = 1;
            while k >= 10u32.pow(n) {
                k -= 10u32.pow(n);
                n += 1;
            }
            if n > 6 {
                break;
            }
            let digits = format!("{:0w$}", k, w = n as usize);
            for sign in ["", "-", "+"] {
                c08_one(format!("{}{}", sign, digits).as_bytes(), o)?;
            }
        }
        Ok(())
    });
}

// -- C09 ---------------------------------------------------------------------------------------------------

fn c09_one(t: &str, o: &mut Obs) -> Res {
    let x = t.as_bytes();
    macro_rules! member {
        ($t:ident, $lang:expr) => {{
            let p = $t::parse(t);
            ensure!(p.is_some() == $lang, "{}::parse({:?}) is {:?}", stringify!($t), t, p.as_ref().map(|v| v.to_string()));
            if let Some(ref v) = p {
                o.class(stringify!($t));
                ensure_eq!(v.to_string(), t, "{} prints", stringify!($t));
                ensure_eq!(B(v.encode_to_vector()), B(x.to_vec()), "{} encodes", stringify!($t));
                ensure_eq!(v.get_size(), x.len(), "{} announces", stringify!($t));
            }
            p
        }};
    }
    if let Some(v) = member!(ClientID, is_client_id(x)) {
        ensure_eq!(v.as_str(), t, "client ID");
    }
    if let Some(v) = member!(Identifier, is_identifier(x)) {
        ensure_eq!(v.as_str(), t, "identifier");
    }
    if let Some(v) = member!(ModuleIdentifier, is_module(x)) {
        let (name, ver) = split_module(x).unwrap();
        ensure_eq!(v.as_str(), t, "module identifier");
        ensure_eq!(v.name().as_str().as_bytes(), name, "module name");
        ensure_eq!(v.major_version(), ver, "major version");
    }
    if let Some(v) = member!(ModuleVersion, is_version(x)) {
        let (m, ver) = split_version(x).unwrap();
        let module = v.module();
        ensure_eq!(module.as_str().as_bytes(), m, "module of version");
        ensure_eq!(v.minor_version(), ver, "minor version");
        let (name, major) = split_module(m).unwrap();
        ensure_eq!(module.name().as_str().as_bytes(), name, "module name of version");
        ensure_eq!(module.major_version(), major, "major version of version");
        let again = module.with_minor_version(ver);
        ensure_eq!(again, v, "with_minor_version");
        ensure_eq!(again.to_string(), t, "with_minor_version prints");
    }
    if let Some(v) = member!(ScopedIdentifier, is_scoped(x)) {
        let (m, i) = split_scoped(x).unwrap();
        ensure_eq!(v.as_str(), t, "scoped identifier");
        let module = v.module();
        ensure_eq!(module.as_str().as_bytes(), m, "module of scoped identifier");
        let (name, major) = split_module(m).unwrap();
        ensure_eq!(module.name().as_str().as_bytes(), name, "module name of scoped identifier");
        ensure_eq!(module.major_version(), major, "major version of scoped identifier");
        ensure_eq!(v.member().as_str().as_bytes(), i, "member of scoped identifier");
    }
    if let Some(v) = member!(MessageType, is_message_type(x)) {
        ensure_eq!(v.as_str(), t, "message type");
        let kind = match v {
            MessageType::Want => "want",
            MessageType::Have => "have",
            MessageType::Nope => "nope",
            MessageType::Scoped(ref s) => {
                ensure_eq!(s.as_str(), t, "scoped message type");
                ""
            }
        };
        ensure_eq!(kind, if is_scoped(x) { "" } else { t }, "kind of message type");
    }
    Ok(())
}

pub fn c09(s: &mut Suite) {
    let text = || argish().prop_map(|b| String::from_utf8_lossy(&b).into_owned());
    let one = |t: &String, o: &mut Obs| -> Res {
        o.nontrivial_if(t.len() >= 2);
        c09_one(t, o)
    };
    s.sub("near_misses", (320_000, 12_000_000), "strings of at least 2 characters", text(), one);
    s.raw(
        "identifier_bytes",
        "strings of at least 2 characters",
        argish().prop_map(|b| b.0).boxed(),
        |d| String::from_utf8_lossy(d).into_owned(),
        one,
    );
    s.each("versions", "every major and minor version number from 0 to 70000", (0..70_000u32).step_by(500), |&b, o| {
        o.nontrivial = true;
        for n in b..b + 500 {
            c09_one(&format!("ab{}", n), o)?;
            c09_one(&format!("ab1.{}", n), o)?;
            c09_one(&format!("ab{}.cd", n), o)?;
            c09_one(&format!("ab{}.{}", n, 70_000 - n), o)?;
        }
        Ok(())
    });
    s.each("all_chars", "every character up to U+2FF and some beyond, at the start, middle and end of identifiers of each class", (0u32..0x300).chain(0x660..0x66a).chain(0xff10..0xff1a).chain(0xff21..0xff5b), |&c, o| {
        let c = match char::from_u32(c) {
            Some(c) => c,
            None => return Ok(()),
        };
        o.nontrivial = true;
        for t in [
            format!("{}", c),
            format!("{}b", c),
            format!("a{}", c),
            format!("a{}b", c),
            format!("{}a1", c),
            format!("a{}1", c),
            format!("a1{}", c),
            format!("a1{}2", c),
            format!("a{}b1.c", c),
            format!("a1{}.c", c),
            format!("a1.{}", c),
            format!("a1.{}b", c),
            format!("a1.b{}", c),
            format!("a1.1{}", c),
            format!("a1.{}1", c),
            format!("want{}", c),
            format!("{}want", c),
        ] {
            c09_one(&t, o)?;
        }
        Ok(())
    });
    let pair = (text(), vec(edit(), 0..2), text(), any::<bool>()).prop_map(|(a, e, c, near)| {
        if near {
            let mut b = a.clone().into_bytes();
            apply_edits(&mut b, &e);
            (a, String::from_utf8_lossy(&b).into_owned())
        } else {
            (a, c)
        }
    });
    let valid = || one_of![client_id(), ident(), module(), version(), scoped(), msg_type()];
    let valid_pair = (valid(), crate::oneof::opt(vec(edit(), 1..2)), valid()).prop_map(|(a, e, c)| match e {
        Some(e) => {
            let mut b = a.clone().into_bytes();
            apply_edits(&mut b, &e);
            (a, String::from_utf8_lossy(&b).into_owned())
        }
        None => (a, c),
    });
    s.sub(
        "comparison",
        (240_000, 8_000_000),
        "pairs of strings of which both are valid for at least one common class",
        one_of![1 => pair.boxed(), 3 => valid_pair.boxed()],
        |(a, b), o| {
            macro_rules! cmp {
                ($t:ident) => {
                    if let (Some(x), Some(y)) = ($t::parse(a), $t::parse(b)) {
                        o.nontrivial = true;
                        o.class_if(a != b, "different valid strings");
                        ensure!((x == y) == (a == b), "{} {:?} == {:?}: {}", stringify!($t), a, b, x == y);
                        ensure!((x != y) == (a != b), "{} {:?} != {:?}: {}", stringify!($t), a, b, x != y);
                        let z = x.clone();
                        ensure!(z == x, "clone of {} {:?} differs", stringify!($t), a);
                    }
                };
            }
            macro_rules! ord {
                ($t:ident) => {
                    cmp!($t);
                    if let (Some(x), Some(y)) = ($t::parse(a), $t::parse(b)) {
                        let (l, r) = (x.cmp(&y), y.cmp(&x));
                        ensure!(l == r.reverse(), "{} order of {:?} and {:?} is not antisymmetric", stringify!($t), a, b);
                        ensure!(x.partial_cmp(&y) == Some(l), "{} partial order", stringify!($t));
                        ensure!((l == std::cmp::Ordering::Equal) == (a == b), "{} {:?} cmp {:?}: {:?}", stringify!($t), a, b, l);
                    }
                };
            }
            ord!(ClientID);
            ord!(Identifier);
            ord!(ModuleIdentifier);
            ord!(ModuleVersion);
            ord!(ScopedIdentifier);
            cmp!(MessageType);
            Ok(())
        },
    );
}
