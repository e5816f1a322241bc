//! C32: texts for logs. C33: the formatter and the announced number of arguments.

use crate::checks::codec::*;
use crate::fw::*;
use crate::gen::*;
use crate::lit::lit_size;
use crate::refmodel::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::panic::{catch_unwind, AssertUnwindSafe};
use vt6::client::EnvironmentError;
use vt6::common::core::msg::*;
use vt6::server::Notification;

fn printable(what: &str, text: &str) -> Res {
    match text.chars().find(|c| c.is_control() || matches!(*c, '\u{2028}' | '\u{2029}' | '\u{202a}'..='\u{202e}' | '\u{200e}' | '\u{200f}' | '\u{2066}'..='\u{2069}' | '\u{feff}')) {
        None => Ok(()),
        Some(c) => Err(format!("{}: {:?} stands in the text {:?}", what, c, text)),
    }
}

/// Undoes Rust's escaping of string literals.
fn unquote(s: &str) -> Option<(String, &str)> {
    let mut it = s.strip_prefix('"')?.char_indices();
    let mut out = String::new();
    while let Some((i, c)) = it.next() {
        match c {
            '"' => return Some((out, &s[i + 2..])),
            '\\' => match it.next()?.1 {
                'n' => out.push('\n'),
                'r' => out.push('\r'),
                't' => out.push('\t'),
                '0' => out.push('\0'),
                'u' => {
                    let mut hex = String::new();
                    if it.next()?.1 != '{' {
                        return None;
                    }
                    loop {
                        match it.next()?.1 {
                            '}' => break,
                            h => hex.push(h),
                        }
                    }
                    out.push(char::from_u32(u32::from_str_radix(&hex, 16).ok()?)?);
                }
                c @ ('"' | '\\' | '\'') => out.push(c),
                _ => return None,
            },
            c => out.push(c),
        }
    }
    None
}

fn log_bytes() -> BoxedStrategy<B> {
    one_of![
        3 => vec(any::<u8>(), 0..30),
        3 => vec(proptest::sample::select(b"\"\\\n\r\t\0\x1b[31m{u}n'x,\x7f".to_vec()), 0..20),
        2 => "\\PC{0,12}".prop_map(String::into_bytes),
        2 => vec(any::<char>(), 0..12).prop_map(|v| v.into_iter().collect::<String>().into_bytes()),
        1 => "[\u{80}-\u{a0}\u{2028}-\u{202e}\u{200b}-\u{200f}\u{feff}a-c]{0,8}".prop_map(String::into_bytes),
        1 => parser_input().prop_map(|b| b.0),
        1 => (any::<u8>(), 200usize..3000).prop_map(|(b, n)| vec![b; n]),
    ]
    .prop_map(B)
    .boxed()
}

fn c32_notification(b: &B, o: &mut Obs) -> Res {
    o.nontrivial_if(b.iter().any(|c| !(0x20..0x7f).contains(c) || *c == b'"' || *c == b'\\'));
    let lossy = String::from_utf8_lossy(b).to_string();
    o.class_if(lossy.as_bytes() != &b.0[..], "not UTF-8");
    let n = Notification::IncomingBytesDiscarded(b);
    ensure!(!n.is_error(), "discarded input counts as an error");
    let discarded = n.to_string();
    printable("discarded input", &discarded)?;
    let quoted = discarded.find('"').and_then(|i| unquote(&discarded[i..]));
    ensure_eq!(quoted, Some((lossy.clone(), "")), "text recovered from {:?}", discarded);
    printable("discarded input, Debug", &format!("{:?}", n))?;
    // the error's own text comes from the system or the application
    let io = Notification::ConnectionIOError(lossy.clone().into());
    ensure!(io.is_error(), "an IO error does not count as an error");
    let io = io.to_string();
    ensure!(io.contains(&lossy), "{:?} does not mention {:?}", io, lossy);
    let (opened, closed) = (Notification::ConnectionOpened, Notification::ConnectionClosed);
    ensure!(!opened.is_error() && !closed.is_error(), "opening or closing counts as an error");
    let (opened, closed) = (opened.to_string(), closed.to_string());
    ensure!(opened != closed && io != opened && io != closed && discarded != opened && discarded != closed, "two kinds of events have one text");
    ensure!(
        Notification::ConnectionIOError("x".into()).to_string() != Notification::IncomingBytesDiscarded(b"x").to_string(),
        "an IO error and discarded input have one text"
    );
    Ok(())
}

fn c32_error(b: &B, o: &mut Obs) -> Res {
    match (Message::parse(b), ref_parse(b)) {
        (Err(e), Verdict::Err { kind, offset }) => {
            let text = e.to_string();
            printable("parse error", &text)?;
            ensure!(text.contains(kind), "{:?} does not mention {:?}", text, kind);
            ensure!(text.split(|c: char| !c.is_ascii_digit()).any(|w| w == offset.to_string()), "{:?} does not mention {}", text, offset);
            ensure_eq!(e.kind.to_string(), kind, "kind of error");
            if b.len() < 2000 {
                printable("parse error, Debug", &format!("{:?}", e))?;
            }
            let env = EnvironmentError::CorruptParentHello(e).to_string();
            ensure!(env.contains(&text), "{:?} does not mention {:?}", env, text);
            ensure!(env != EnvironmentError::NoVT6Terminal.to_string(), "two errors have one text");
            o.class("parse error");
            o.nontrivial_if(offset > 2);
        }
        (Ok((m, _)), Verdict::Msg { .. }) => {
            let text = m.to_string();
            printable("message", &text)?;
            printable("message, Debug", &format!("{:?}", m))?;
            let env = EnvironmentError::InvalidParentHello(m).to_string();
            printable("invalid parent-hello", &env)?;
            ensure!(env.contains(&text), "{:?} does not mention {:?}", env, text);
            ensure!(env != EnvironmentError::NoVT6Terminal.to_string(), "two errors have one text");
            o.class("message");
            o.nontrivial_if(text.contains('"'));
        }
        // decided by C03
        _ => o.class("verdict differs"),
    }
    Ok(())
}

pub fn c32(s: &mut Suite) {
    s.sub("notifications", (200_000, 8_000_000), "input with bytes that need escaping", log_bytes(), c32_notification);
    s.sub(
        "errors",
        (200_000, 8_000_000),
        "messages with arguments that need quotes, errors past byte 2",
        one_of![3 => parser_input(), 2 => (msg_type(), vec(log_bytes(), 0..4)).prop_map(|(ty, args)| B(Msg { ty, args }.wire())), 1 => log_bytes()],
        c32_error,
    );
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Script {
    ty: String,
    announced: usize,
    args: Vec<B>,
    /// kind of argument: bytes, text, number, flag, nothing
    kinds: Vec<u8>,
    size: usize,
}

fn c33_case(c: &Script, o: &mut Obs) -> Res {
    let mut buf = vec![0xC3u8; c.size];
    let mut added = 0;
    let mut items: Vec<Vec<u8>> = vec![c.ty.as_bytes().to_vec()];
    let mut done = false;
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut f = MessageFormatter::new(&mut buf, &c.ty, c.announced);
        for (i, a) in c.args.iter().enumerate() {
            match c.kinds[i % c.kinds.len()] % 5 {
                0 => {
                    f.add_argument(&a.0[..]);
                    items.push(a.0.clone());
                }
                1 => {
                    let t = String::from_utf8_lossy(a).to_string();
                    f.add_argument(&t[..]);
                    items.push(t.into_bytes());
                }
                2 => {
                    f.add_argument(&(a.len() as i64 - 20));
                    items.push((a.len() as i64 - 20).to_string().into_bytes());
                }
                3 => {
                    f.add_argument(&(a.len() % 2 == 0));
                    items.push(vec![if a.len() % 2 == 0 { b't' } else { b'f' }]);
                }
                _ => {
                    f.add_argument(&None::<&str>);
                    items.push(vec![]);
                }
            }
            added += 1;
        }
        done = true;
        f.finalize()
    }));
    take_panics();
    let k = c.args.len();
    if k > c.announced {
        ensure!(r.is_err() && !done, "{} arguments were added though {} had been announced", added, c.announced);
        ensure_eq!(added, c.announced, "number of arguments that were accepted");
        o.class("too many");
    } else if k < c.announced {
        ensure!(done, "adding argument {} of {} panicked", added, c.announced);
        ensure!(r.is_err(), "a message with {} arguments was finished ({:?}) though {} had been announced", k, r, c.announced);
        o.class("too few");
    } else {
        let wire = ref_format(&items.iter().map(|i| &i[..]).collect::<Vec<_>>());
        let want = if wire.len() <= c.size.min(1024) { Ok(wire.len()) } else { Err(BufferTooSmallError(wire.len() - c.size.min(1024))) };
        match r {
            Ok(got) => {
                ensure_eq!(got, want, "result");
                if let Ok(n) = got {
                    ensure_eq!(B(buf[..n].to_vec()), B(wire), "wire form");
                }
            }
            Err(_) => return Err("the formatter panicked though the number of arguments is as announced".into()),
        }
        o.class("as announced");
        o.class_if(want.is_err(), "too small");
    }
    o.nontrivial_if(k != c.announced && k > 0 || k > 8);
    Ok(())
}

pub fn c33(s: &mut Suite) {
    let size = one_of![3 => Just(1024usize), 2 => 0usize..60, 1 => 1000usize..3000];
    let size2 = size.clone();
    s.sub(
        "scripts",
        (120_000, 4_000_000),
        "a number of arguments other than announced, or more than 8",
        (msg_type(), one_of![4 => Just(0i32), 4 => -2i32..3, 1 => -12i32..200], vec(arg_bytes(), 0..14), vec(any::<u8>(), 1..5), size).prop_map(
            |(ty, d, args, kinds, size)| Script { ty, announced: (args.len() as i32 + d).max(0) as usize, args, kinds, size },
        ),
        c33_case,
    );
    s.sub(
        "many",
        (4_000, 200_000),
        "a number of arguments other than announced, or more than 8",
        (msg_type(), one_of![Just(0i32), -3i32..4], 0usize..400, size2).prop_map(|(ty, d, n, size)| Script {
            ty,
            announced: (n as i32 + d).max(0) as usize,
            args: vec![B(vec![]); n],
            kinds: vec![4],
            size,
        }),
        c33_case,
    );
    let edge = |bits: Vec<u32>| (select(bits), -3i64..4).prop_map(|(b, d)| ((1u64 << b) as i64 + d) as usize);
    let counts = one_of![
        3 => (edge(vec![12, 15, 16, 17]), -1i64..2).prop_map(|(n, d)| (n, (n as i64 + d) as usize)),
        1 => (400usize..100_000, -1i64..2).prop_map(|(n, d)| (n, (n as i64 + d) as usize)),
        // so many can only be announced
        2 => (0usize..8, one_of![edge(vec![20, 24, 31, 32, 33, 48, 62]), lit_size(1 << 40)]),
    ];
    s.sub(
        "very many",
        (400, 20_000),
        "a number of arguments other than announced, or more than 8",
        (counts, select(vec![0usize, 20, 1024, 5000])).prop_map(|((n, announced), size)| Script {
            ty: "a1.b".into(),
            announced,
            args: vec![B(vec![]); n],
            kinds: vec![4],
            size,
        }),
        c33_case,
    );
}
