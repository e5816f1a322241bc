//! Operations of the codec layer with everything observable about them written down as text. This file is compiled
//! twice: against a vt6 crate with and one without its standard-library feature.

use std::fmt::Write;
use vt6::client::core::*;
use vt6::common::core::msg::*;
use vt6::common::core::*;
use vt6::msg::core::*;
use vt6::msg::posix::*;
use vt6::msg::*;

/// Requests are a kind and a list of byte strings.
pub fn request(kind: u8, items: &[&[u8]]) -> Vec<u8> {
    let mut v = vec![kind];
    for i in items {
        v.extend((i.len() as u32).to_le_bytes());
        v.extend(*i);
    }
    v
}

pub fn answer(req: &[u8]) -> String {
    let kind = req[0];
    let mut items: Vec<&[u8]> = vec![];
    let mut rest = &req[1..];
    while !rest.is_empty() {
        let n = u32::from_le_bytes(rest[..4].try_into().unwrap()) as usize;
        items.push(&rest[4..4 + n]);
        rest = &rest[4 + n..];
    }
    match std::panic::catch_unwind(|| run(kind, &items)) {
        Ok(s) => s,
        Err(e) => {
            let text = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
            format!("panic: {:?}", text)
        }
    }
}

fn run(kind: u8, items: &[&[u8]]) -> String {
    let mut o = String::new();
    let none: &[u8] = b"";
    let get = |i: usize| items.get(i).copied().unwrap_or(none);
    match kind {
        0 => parse(&mut o, get(0)),
        1 => decode(&mut o, get(0)),
        2 => identifiers(&mut o, get(0), get(1)),
        3 => format(&mut o, number(get(0)), get(1), items.get(2..).unwrap_or(&[])),
        4 => predefined(&mut o, number(get(0)), number(get(1)), items.get(2..).unwrap_or(&[])),
        5 => integers(&mut o, get(0)),
        _ => client_ids(&mut o, get(0), number(get(1)), number(get(2)) as u32, number(get(3)) as u32),
    }
    o
}

pub fn number(b: &[u8]) -> usize {
    std::str::from_utf8(b).ok().and_then(|s| s.parse().ok()).unwrap_or(0)
}

#[cfg(feature = "nostd")]
fn path_bytes(p: &[u8]) -> &[u8] {
    p
}
#[cfg(not(feature = "nostd"))]
fn path_bytes(p: &std::path::Path) -> &[u8] {
    std::os::unix::ffi::OsStrExt::as_bytes(p.as_os_str())
}
#[cfg(feature = "nostd")]
fn to_path(p: &[u8]) -> &[u8] {
    p
}
#[cfg(not(feature = "nostd"))]
fn to_path(p: &[u8]) -> &std::path::Path {
    std::path::Path::new(<std::ffi::OsStr as std::os::unix::ffi::OsStrExt>::from_bytes(p))
}

fn parse(o: &mut String, b: &[u8]) {
    match Message::parse(b) {
        Err(e) => {
            write!(o, "{} {:?} {} {} {} {}", e, e.kind, e.kind, e.offset, e.is_incomplete(), e.buffer.len()).unwrap();
            write!(o, " {:?}", e).unwrap();
        }
        Ok((m, n)) => {
            write!(o, "{} {:?} {} {:?}", n, m, m, m.parsed_type()).unwrap();
            let mut it = m.arguments();
            loop {
                write!(o, " {} {:?} {:?}", it.len(), it.size_hint(), it).unwrap();
                match it.next() {
                    Some(a) => write!(o, " {:?}", a).unwrap(),
                    None => break,
                }
            }
            write!(o, " {:?}", it.next()).unwrap();
            write!(o, " {:?}", m.arguments().last()).unwrap();
            write!(o, " {:?}", m.arguments().nth(1)).unwrap();
            write!(o, " {:?}", Want::decode_message(&m)).unwrap();
            write!(o, " {:?}", Have::decode_message(&m)).unwrap();
            write!(o, " {:?}", Nope::decode_message(&m)).unwrap();
            write!(o, " {:?}", ClientMake::decode_message(&m)).unwrap();
            write!(o, " {:?}", ClientNew::decode_message(&m)).unwrap();
            write!(o, " {:?}", ClientEnd::decode_message(&m)).unwrap();
            write!(o, " {:?}", ClientHello::decode_message(&m)).unwrap();
            write!(o, " {:?}", ServerHello::decode_message(&m)).unwrap();
            write!(o, " {:?}", StdinHello::decode_message(&m)).unwrap();
            write!(o, " {:?}", StdoutHello::decode_message(&m)).unwrap();
            match ParentHello::decode_message(&m) {
                None => o.push_str(" None"),
                Some(h) => write!(o, " {:?} {:?}", h.client_secret, path_bytes(h.server_socket_path)).unwrap(),
            }
        }
    }
}

fn decode(o: &mut String, b: &[u8]) {
    macro_rules! all {
        ($($t:ty),*) => { $(
            write!(o, " {:?} {:?};", <$t>::decode_argument(b), <Option<$t>>::decode_argument(b)).unwrap();
        )* };
    }
    all!(bool, i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize, &str, &[u8]);
    all!(ClientID, Identifier, ModuleIdentifier, ModuleVersion, ScopedIdentifier, MessageType);
}

fn encoded<T: EncodeArgument + ?Sized>(v: &T) -> Vec<u8> {
    let mut buf = vec![0x5a; v.get_size()];
    v.encode(&mut buf);
    buf
}

fn identifiers(o: &mut String, a: &[u8], b: &[u8]) {
    let (a, b) = (String::from_utf8_lossy(a), String::from_utf8_lossy(b));
    macro_rules! one {
        ($t:ident, $x:ident => $($e:expr),*) => {
            if let Some($x) = $t::parse(&a) {
                write!(o, "{} {} {:?} {:?}", stringify!($t), $x, $x, encoded(&$x)).unwrap();
                $( write!(o, " {:?}", $e).unwrap(); )*
                if let Some(y) = $t::parse(&b) {
                    write!(o, " {}", $x == y).unwrap();
                }
            }
        };
    }
    one!(ClientID, x => x.as_str());
    one!(Identifier, x => x.as_str());
    one!(ModuleIdentifier, x => x.as_str(), x.name(), x.major_version(), encoded(&x.with_minor_version(7)));
    one!(ModuleVersion, x => x.module(), x.minor_version());
    one!(ScopedIdentifier, x => x.as_str(), x.module(), x.member());
    one!(MessageType, x => x.as_str());
    if let (Some(x), Some(y)) = (ModuleVersion::parse(&a), ModuleVersion::parse(&b)) {
        write!(o, " {:?}", x.cmp(&y)).unwrap();
    }
    if let (Some(x), Some(y)) = (ScopedIdentifier::parse(&a), ScopedIdentifier::parse(&b)) {
        write!(o, " {:?}", x.cmp(&y)).unwrap();
    }
    if let (Some(x), Some(y)) = (ModuleIdentifier::parse(&a), ModuleIdentifier::parse(&b)) {
        write!(o, " {:?}", x.cmp(&y)).unwrap();
    }
}

fn result(o: &mut String, buf: &[u8], r: Result<usize, BufferTooSmallError>) {
    match r {
        Ok(n) => write!(o, "{} {:?} untouched {}", n, &buf[..n], buf[n..].iter().all(|&x| x == 0x5a)).unwrap(),
        Err(e) => write!(o, "{:?} {}", e, e.0).unwrap(),
    }
}

fn format(o: &mut String, size: usize, ty: &[u8], args: &[&[u8]]) {
    let ty = String::from_utf8_lossy(ty);
    let mut buf = vec![0x5a; size];
    let mut f = MessageFormatter::new(&mut buf, &ty, args.len());
    for (k, a) in args.iter().enumerate() {
        match k % 4 {
            0 => f.add_argument(*a),
            1 => f.add_argument(&Some(*a)),
            2 => match std::str::from_utf8(a) {
                Ok(s) => f.add_argument(s),
                Err(_) => f.add_argument(*a),
            },
            _ => f.add_argument(&a.len()),
        }
    }
    let r = f.finalize();
    result(o, &buf, r)
}

fn predefined(o: &mut String, size: usize, kind: usize, fields: &[&[u8]]) {
    let mut buf = vec![0x5a; size];
    let text = |i: usize| fields.get(i).and_then(|f| std::str::from_utf8(f).ok()).unwrap_or("");
    let opt = |i: usize| fields.get(i).and_then(|f| std::str::from_utf8(f).ok());
    macro_rules! go {
        ($m:expr) => {{
            let r = $m.encode(&mut buf);
            result(o, &buf, r)
        }};
    }
    match kind {
        0 => if let Some(m) = ModuleIdentifier::parse(text(0)) { go!(Want(m)) },
        1 => if let Some(m) = ModuleVersion::parse(text(0)) { go!(Have::ThisModule(m)) },
        2 => if let Some(m) = ModuleIdentifier::parse(text(0)) { go!(Have::NotThisModule(m)) },
        3 => if let Some(m) = MessageType::parse(text(0)) { go!(Nope(m)) },
        4 => if let Some(c) = ClientID::parse(text(0)) {
            go!(ClientMake { client_id: c, stdin_screen_id: opt(1), stdout_screen_id: opt(2), stderr_screen_id: opt(3) })
        },
        5 => go!(ClientNew { secret: text(0) }),
        6 => if let Some(c) = ClientID::parse(text(0)) { go!(ClientEnd { client_id: c }) },
        7 => go!(ClientHello { secret: text(0) }),
        8 => go!(ParentHello { client_secret: text(0), server_socket_path: to_path(fields.get(1).copied().unwrap_or(b"")) }),
        9 => if let Some(c) = ClientID::parse(text(0)) {
            go!(ServerHello { client_id: c, stdin_screen_id: opt(1), stdout_screen_id: opt(2), stderr_screen_id: opt(3) })
        },
        10 => go!(StdinHello { secret: text(0) }),
        _ => go!(StdoutHello { secret: text(0) }),
    }
}

fn integers(o: &mut String, b: &[u8]) {
    let s = String::from_utf8_lossy(b);
    macro_rules! all {
        ($($t:ty),*) => { $(
            if let Ok(v) = s.parse::<$t>() {
                write!(o, " {:?} {:?}", encoded(&v), encoded(&Some(&v))).unwrap();
            }
        )* };
    }
    all!(i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize);
    write!(o, " {:?} {:?} {:?}", encoded(&true), encoded(&false), encoded(&None::<&u8>)).unwrap();
}

fn client_ids(o: &mut String, base: &[u8], kind: usize, i: u32, j: u32) {
    let base = String::from_utf8_lossy(base);
    if let Some(c) = ClientID::parse(&base) {
        let s = match kind {
            0 => ClientIDSuffix::Own,
            1 => ClientIDSuffix::Local(i),
            2 => ClientIDSuffix::Job(i),
            _ => ClientIDSuffix::Child(i, j),
        };
        let r = s.below(c);
        write!(o, "{:?} {:?} {} {:?} {:?}", r.base(), r.suffix(), r.get_size(), encoded(&r), s).unwrap();
    }
}
