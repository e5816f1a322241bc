//! C10, C11: the predefined messages.

use crate::fw::*;
use crate::gen::*;
use crate::refmodel::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::os::unix::ffi::OsStrExt;
use vt6::common::core::msg::*;
use vt6::common::core::*;
use vt6::msg::core::*;
use vt6::msg::*;

type Scr = Option<String>;

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Pre {
    Want(String),
    HaveThis(String, u16),
    HaveNot(String),
    Nope(String),
    Make(String, Scr, Scr, Scr),
    New(String),
    End(String),
    ClientHello(String),
    ParentHello(String, B),
    ServerHello(String, Scr, Scr, Scr),
    StdinHello(String),
    StdoutHello(String),
}
use Pre::*;

fn scr(s: &Scr) -> Option<&str> {
    s.as_ref().map(|s| s.as_str())
}
fn own(s: Option<&str>) -> Scr {
    s.map(String::from)
}
fn path(b: &[u8]) -> &std::path::Path {
    std::path::Path::new(std::ffi::OsStr::from_bytes(b))
}

impl Pre {
    pub fn kind(&self) -> &'static str {
        match self {
            Pre::Want(_) => "want",
            HaveThis(..) | HaveNot(_) => "have",
            Pre::Nope(_) => "nope",
            Make(..) => "core1.client-make",
            New(_) => "core1.client-new",
            End(_) => "core1.client-end",
            Pre::ClientHello(_) => "posix1.client-hello",
            Pre::ParentHello(..) => "posix1.parent-hello",
            Pre::ServerHello(..) => "posix1.server-hello",
            Pre::StdinHello(_) => "posix1.stdin-hello",
            Pre::StdoutHello(_) => "posix1.stdout-hello",
        }
    }
    /// Type and arguments, from the definition of the message.
    pub fn msg(&self) -> Msg {
        let o = |s: &Scr| B(s.clone().unwrap_or_default().into_bytes());
        let t = |s: &String| B(s.clone().into_bytes());
        let args = match self {
            Pre::Want(a) | HaveNot(a) | Pre::Nope(a) | New(a) | End(a) | Pre::ClientHello(a) | Pre::StdinHello(a)
            | Pre::StdoutHello(a) => vec![t(a)],
            HaveThis(m, v) => vec![B(format!("{}.{}", m, v).into_bytes())],
            Make(c, i, u, e) | Pre::ServerHello(c, i, u, e) => vec![t(c), o(i), o(u), o(e)],
            Pre::ParentHello(s, p) => vec![t(s), p.clone()],
        };
        Msg { ty: self.kind().into(), args }
    }
    pub fn encode(&self, buf: &mut [u8]) -> Result<usize, BufferTooSmallError> {
        match self {
            Pre::Want(m) => vt6::msg::Want(ModuleIdentifier::parse(m).unwrap()).encode(buf),
            HaveThis(m, v) => Have::ThisModule(ModuleIdentifier::parse(m).unwrap().with_minor_version(*v)).encode(buf),
            HaveNot(m) => Have::NotThisModule(ModuleIdentifier::parse(m).unwrap()).encode(buf),
            Pre::Nope(t) => vt6::msg::Nope(MessageType::parse(t).unwrap()).encode(buf),
            Make(c, i, u, e) => ClientMake {
                client_id: ClientID::parse(c).unwrap(),
                stdin_screen_id: scr(i),
                stdout_screen_id: scr(u),
                stderr_screen_id: scr(e),
            }
            .encode(buf),
            New(s) => ClientNew { secret: s }.encode(buf),
            End(c) => ClientEnd { client_id: ClientID::parse(c).unwrap() }.encode(buf),
            Pre::ClientHello(s) => vt6::msg::posix::ClientHello { secret: s }.encode(buf),
            Pre::ParentHello(s, p) => {
                vt6::msg::posix::ParentHello { client_secret: s, server_socket_path: path(p) }.encode(buf)
            }
            Pre::ServerHello(c, i, u, e) => vt6::msg::posix::ServerHello {
                client_id: ClientID::parse(c).unwrap(),
                stdin_screen_id: scr(i),
                stdout_screen_id: scr(u),
                stderr_screen_id: scr(e),
            }
            .encode(buf),
            Pre::StdinHello(s) => vt6::msg::posix::StdinHello { secret: s }.encode(buf),
            Pre::StdoutHello(s) => vt6::msg::posix::StdoutHello { secret: s }.encode(buf),
        }
    }
}

/// All predefined kinds as which the message decodes.
pub fn decode_all(m: &Message<'_>) -> Vec<Pre> {
    let mut v = vec![];
    if let Some(vt6::msg::Want(x)) = vt6::msg::Want::decode_message(m) {
        v.push(Pre::Want(x.as_str().into()));
    }
    match Have::decode_message(m) {
        Some(Have::ThisModule(x)) => v.push(HaveThis(x.module().as_str().into(), x.minor_version())),
        Some(Have::NotThisModule(x)) => v.push(HaveNot(x.as_str().into())),
        None => {}
    }
    if let Some(vt6::msg::Nope(x)) = vt6::msg::Nope::decode_message(m) {
        v.push(Pre::Nope(x.as_str().into()));
    }
    if let Some(x) = ClientMake::decode_message(m) {
        v.push(Make(x.client_id.as_str().into(), own(x.stdin_screen_id), own(x.stdout_screen_id), own(x.stderr_screen_id)));
    }
    if let Some(x) = ClientNew::decode_message(m) {
        v.push(New(x.secret.into()));
    }
    if let Some(x) = ClientEnd::decode_message(m) {
        v.push(End(x.client_id.as_str().into()));
    }
    if let Some(x) = vt6::msg::posix::ClientHello::decode_message(m) {
        v.push(Pre::ClientHello(x.secret.into()));
    }
    if let Some(x) = vt6::msg::posix::ParentHello::decode_message(m) {
        v.push(Pre::ParentHello(x.client_secret.into(), B(x.server_socket_path.as_os_str().as_bytes().to_vec())));
    }
    if let Some(x) = vt6::msg::posix::ServerHello::decode_message(m) {
        v.push(Pre::ServerHello(x.client_id.as_str().into(), own(x.stdin_screen_id), own(x.stdout_screen_id), own(x.stderr_screen_id)));
    }
    if let Some(x) = vt6::msg::posix::StdinHello::decode_message(m) {
        v.push(Pre::StdinHello(x.secret.into()));
    }
    if let Some(x) = vt6::msg::posix::StdoutHello::decode_message(m) {
        v.push(Pre::StdoutHello(x.secret.into()));
    }
    v
}

/// The kind as which a message with these parts must decode, if any.
pub fn model_decode(m: &Msg) -> Option<Pre> {
    let a = &m.args;
    let utf = |k: usize| std::str::from_utf8(&a[k]).ok().map(String::from);
    let txt = |k: usize| String::from_utf8(a[k].0.clone()).unwrap();
    let opt = |k: usize| -> Option<Scr> {
        if a[k].is_empty() {
            Some(None)
        } else {
            utf(k).map(Some)
        }
    };
    let four = || -> Option<(String, Scr, Scr, Scr)> {
        if a.len() == 4 && is_client_id(&a[0]) {
            Some((txt(0), opt(1)?, opt(2)?, opt(3)?))
        } else {
            None
        }
    };
    let n = a.len();
    match &m.ty[..] {
        "want" if n == 1 && is_module(&a[0]) => Some(Pre::Want(txt(0))),
        "have" if n == 1 => {
            if let Some((m, v)) = split_version(&a[0]) {
                Some(HaveThis(String::from_utf8(m.to_vec()).unwrap(), v))
            } else if is_module(&a[0]) {
                Some(HaveNot(txt(0)))
            } else {
                None
            }
        }
        "nope" if n == 1 && is_message_type(&a[0]) => Some(Pre::Nope(txt(0))),
        "core1.client-make" => four().map(|(c, i, u, e)| Make(c, i, u, e)),
        "core1.client-new" if n == 1 => utf(0).map(New),
        "core1.client-end" if n == 1 && is_client_id(&a[0]) => Some(End(txt(0))),
        "posix1.client-hello" if n == 1 => utf(0).map(Pre::ClientHello),
        "posix1.parent-hello" if n == 2 => utf(0).map(|s| Pre::ParentHello(s, a[1].clone())),
        "posix1.server-hello" => four().map(|(c, i, u, e)| Pre::ServerHello(c, i, u, e)),
        "posix1.stdin-hello" if n == 1 => utf(0).map(Pre::StdinHello),
        "posix1.stdout-hello" if n == 1 => utf(0).map(Pre::StdoutHello),
        _ => None,
    }
}

fn text(max: usize) -> BoxedStrategy<String> {
    one_of![
        4 => "[A-Za-z0-9_-]{1,32}",
        2 => "\\PC{0,12}",
        1 => Just(String::new()),
        1 => "[ -~]{0,12}",
        1 => (0..max.max(1)).prop_map(|n| "x".repeat(n)),
        1 => "[{}|:,0-9]{0,12}",
    ]
    .boxed()
}
fn screen(max: usize) -> BoxedStrategy<Scr> {
    crate::oneof::opt_weighted(0.6, text(max).prop_map(|s| if s.is_empty() { "s".into() } else { s })).boxed()
}
fn longish_id(max: usize) -> BoxedStrategy<String> {
    one_of![5 => client_id(), 1 => (1..max.max(2)).prop_map(|n| "a".repeat(n))].boxed()
}

/// Any predefined message; single fields get up to about `max` bytes long.
pub fn pre(max: usize) -> BoxedStrategy<Pre> {
    let t = || text(max);
    one_of![
        one_of![4 => module(), 1 => (1..max.max(2)).prop_map(|n| format!("{}1", "m".repeat(n)))].prop_map(Pre::Want),
        (module(), minor()).prop_map(|(m, v)| HaveThis(m, v)),
        ((1..max.max(2)).prop_map(|n| format!("{}1", "m".repeat(n))), minor()).prop_map(|(m, v)| HaveThis(m, v)),
        module().prop_map(HaveNot),
        msg_type().prop_map(Pre::Nope),
        (longish_id(max), screen(max), screen(max), screen(max)).prop_map(|(c, i, u, e)| Make(c, i, u, e)),
        t().prop_map(New),
        longish_id(max).prop_map(End),
        t().prop_map(Pre::ClientHello),
        (t(), one_of![vec(1u8..=255, 0..20), vec(any::<u8>(), 0..max.max(1)), Just(b"/run/user/1000/vt6/42".to_vec())]).prop_map(|(s, p)| Pre::ParentHello(s, B(p))),
        (longish_id(max), screen(max), screen(max), screen(max)).prop_map(|(c, i, u, e)| Pre::ServerHello(c, i, u, e)),
        t().prop_map(Pre::StdinHello),
        t().prop_map(Pre::StdoutHello),
    ]
    .boxed()
}

pub fn c10(s: &mut Suite) {
    let f = |p: &Pre, o: &mut Obs| -> Res {
        let m = p.msg();
        let wire = m.wire();
        if wire.len() > 1024 {
            o.class("too long, skipped");
            return Ok(());
        }
        o.nontrivial = true;
        o.class(p.kind());
        o.class_if(matches!(p, Make(_, None, ..) | Pre::ServerHello(_, None, ..)), "absent optional field");
        let mut buf = [0x55u8; 1024];
        let n = p.encode(&mut buf).map_err(|e| format!("{:?} for a message of {} bytes", e, wire.len()))?;
        ensure_eq!(B(buf[..n].to_vec()), B(wire), "wire form");
        let (parsed, len) = Message::parse(&buf[..n]).map_err(|e| e.to_string())?;
        ensure_eq!(len, n, "parsed length");
        ensure_eq!(decode_all(&parsed), vec![p.clone()], "decoded");
        Ok(())
    };
    s.sub("roundtrip", (240_000, 8_000_000), "every message of at most 1024 bytes", pre(40), f);
    s.sub("long", (40_000, 1_500_000), "messages of up to 1024 bytes with one long field", pre(1000), f);
}

pub fn c11(s: &mut Suite) {
    let arg = || {
        one_of![
            3 => argish(),
            3 => arg_bytes(),
            2 => client_id().prop_map(|s| B(s.into_bytes())),
            2 => module().prop_map(|s| B(s.into_bytes())),
            1 => version().prop_map(|s| B(s.into_bytes())),
            1 => msg_type().prop_map(|s| B(s.into_bytes())),
            1 => select(vec![&b"\xff"[..], b"a\xff", b"\xc3", b"\xed\xa0\x80", b"screen1", b""]).prop_map(|b| B(b.to_vec())),
        ]
    };
    let ty = || {
        one_of![
            8 => select(PREDEF.to_vec()).prop_map(String::from),
            2 => (select(PREDEF.to_vec()), edit()).prop_map(|(t, e)| {
                let mut v = t.as_bytes().to_vec();
                apply_edits(&mut v, &[e]);
                if is_message_type(&v) { String::from_utf8(v).unwrap() } else { t.to_string() }
            }),
            1 => select(vec!["core2.client-make", "core1.client-makes", "core1.client", "posix2.client-hello", "posix1.client-new", "core1.client-hello", "core1.want", "posix1.stdin", "core1.Client-make", "core10.client-end"]).prop_map(String::from),
            1 => msg_type(),
        ]
    };
    let by_hand = (ty(), vec(arg(), 0..6)).prop_map(|(ty, args)| Msg { ty, args });
    // a valid message with one thing changed
    let near = (pre(20), ty(), 0u8..8, idx(), arg(), vec(edit(), 1..3)).prop_map(|(p, ty, how, i, arg, e)| {
        let mut m = p.msg();
        let k = i.of(m.args.len());
        match how {
            0 => m.ty = ty,
            1 => m.args.insert(k, arg),
            2 => {
                m.args.remove(k);
            }
            3 => m.args[k] = arg,
            4 => apply_edits(&mut m.args[k].0, &e),
            5 => m.args.push(B(vec![])),
            6 => {
                let n = m.args.len();
                m.args.swap(k, n - 1)
            }
            _ => {}
        }
        m
    });
    let decode = |m: &Msg, o: &mut Obs| -> Res {
        let wire = m.wire();
        let (p, _) = Message::parse(&wire).map_err(|e| e.to_string())?;
        let exp: Vec<Pre> = model_decode(m).into_iter().collect();
        o.nontrivial_if(PREDEF.contains(&&m.ty[..]));
        o.class(if exp.is_empty() { "declined" } else { "decoded" });
        let got = decode_all(&p);
        ensure_eq!(got, exp, "{} decodes", p);
        ensure!(got.len() <= 1, "{} decodes as two kinds: {:?}", p, got);
        // nothing dropped, added or reinterpreted: the decoded value is the message
        if let Some(k) = got.first() {
            ensure_eq!(k.msg(), *m, "the decoded value stands for");
        }
        Ok(())
    };
    s.sub("decode", (320_000, 12_000_000), "messages whose type is one of the predefined types", one_of![1 => by_hand, 2 => near], decode);
    s.raw(
        "decode_bytes",
        "the same; the first byte selects the type, arguments end where the byte 00 stands",
        (0..PREDEF.len() as u8, vec(arg(), 0..6))
            .prop_map(|(k, a)| [&[k][..], &a.iter().map(|a| &a.0[..]).collect::<Vec<_>>().join(&0)].concat())
            .boxed(),
        |d| {
            let (k, d) = d.split_first().map_or((0, d), |(k, d)| (*k as usize, d));
            Msg { ty: PREDEF[k % PREDEF.len()].into(), args: d.split(|&b| b == 0).skip(k / 128).map(|a| B(a.to_vec())).collect() }
        },
        decode,
    );
}
