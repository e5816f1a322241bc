//! C16-C21: the server's message handling, against the reference server model.

use crate::fw::*;
use crate::gen::*;
use crate::lit::*;
use crate::srv::*;
use crate::tok::TokioWorld;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

// ---------------------------------------------------------------------------------------------------------
// generators

/// Client IDs over a tiny alphabet, so that prefix relations and collisions abound.
pub fn small_id() -> BoxedStrategy<String> {
    one_of![
        12 => vec(select(vec!['a', 'b', '1']), 1..=4).prop_map(|v| v.into_iter().collect()),
        1 => client_id(),
        // case matters
        1 => select(vec!["A", "aB", "B1"]).prop_map(String::from),
    ]
    .boxed()
}
pub fn suffix() -> BoxedStrategy<String> {
    one_of![
        1 => Just(String::new()),
        8 => vec(select(vec!['a', 'b', '1']), 1..=2).prop_map(|v| v.into_iter().collect()),
        1 => "[a-zA-Z0-9]{3,9}",
        1 => Just("-".to_string()),
    ]
    .boxed()
}
fn screen_id() -> BoxedStrategy<String> {
    one_of![
        4 => Just(String::new()),
        8 => select(vec!["screen1", "screen2", "s", "t"]).prop_map(String::from),
        2 => "[ -~]{1,12}",
        1 => "\\PC{1,6}",
        1 => (300usize..500).prop_map(|n| "y".repeat(n)),
        1 => lit_size(500).prop_map(|n| "y".repeat(n)),
        1 => lit_text(|_| true, "s"),
    ]
    .boxed()
}
pub fn screens() -> BoxedStrategy<Screens> {
    (screen_id(), screen_id(), screen_id()).prop_map(|(a, b, c)| [a, b, c]).boxed()
}
const SECRETS: [&str; 10] =
    ["k0", "k1", "k10", "K0", "s p a c e", "\u{fc}\u{20ac}", "{2|4:want,5:core1,}", "a\"b\\c", "-_-_ABCabc019", ""];

pub fn setup(clients: std::ops::Range<usize>, nscreens: std::ops::Range<usize>, small_screens: bool) -> BoxedStrategy<Setup> {
    let scr = if small_screens {
        (select(vec!["", "screen1"]), select(vec!["", "screen1"]), select(vec!["", "s2"]))
            .prop_map(|(a, b, c)| [a.to_string(), b.to_string(), c.to_string()])
            .boxed()
    } else {
        screens()
    };
    (
        vec((small_id(), scr), clients),
        vec(select(vec!["screen1", "screen2", "s", "x y", "\u{e4}"]), nscreens),
        any::<u64>(),
    )
        .prop_map(|(cs, ss, r)| {
            let mut n = (r % 97) as usize;
            let mut next = || {
                n += 1;
                // all secrets of a setup differ
                let k = n;
                if k % 97 < SECRETS.len() && k < 97 {
                    SECRETS[k % 97].to_string()
                } else {
                    format!("k{}", k)
                }
            };
            let mut clients: Vec<ClientSpec> = vec![];
            for (id, scr) in cs {
                if clients.iter().all(|c| c.id != id) {
                    clients.push(ClientSpec { id, scr, secret: next() });
                }
            }
            let mut scs: Vec<ScreenSpec> = vec![];
            for id in ss {
                if scs.iter().all(|c| c.id != id) {
                    scs.push(ScreenSpec { id: id.to_string(), stdin: next(), stdout: next() });
                }
            }
            Setup { clients, screens: scs }
        })
        .boxed()
}

fn sec_for(kind: u8, i: u8) -> Sec {
    match kind % 3 {
        0 => Sec::Client(i),
        1 => Sec::Stdin(i),
        _ => Sec::Stdout(i),
    }
}
pub fn good_hello() -> BoxedStrategy<Piece> {
    (0u8..3, 0u8..4).prop_map(|(k, i)| Piece::Hello(k, sec_for(k, i))).boxed()
}
pub fn near_secret() -> BoxedStrategy<Sec> {
    let right = one_of![
        3 => (0u8..4).prop_map(Sec::Client),
        2 => (0u8..4).prop_map(Sec::Stdin),
        2 => (0u8..4).prop_map(Sec::Stdout),
        3 => (0u8..6).prop_map(Sec::Made),
    ];
    (right, any::<u8>()).prop_map(|(s, h)| Sec::Near(Box::new(s), h)).boxed()
}
/// A hello of the right kind with a text that is nearly the right secret.
pub fn near_hello() -> BoxedStrategy<Piece> {
    near_secret()
        .prop_map(|s| {
            let k = match &s {
                Sec::Near(s, _) => match **s {
                    Sec::Stdin(_) => 1,
                    Sec::Stdout(_) => 2,
                    _ => 0,
                },
                _ => 0,
            };
            Piece::Hello(k, s)
        })
        .boxed()
}
fn any_secret() -> BoxedStrategy<Sec> {
    one_of![
        2 => near_secret(),
        4 => (0u8..4).prop_map(Sec::Client),
        3 => (0u8..4).prop_map(Sec::Stdin),
        3 => (0u8..4).prop_map(Sec::Stdout),
        4 => (0u8..6).prop_map(Sec::Made),
        2 => select(SECRETS.to_vec()).prop_map(|s| Sec::Text(s.into())),
        1 => "\\PC{0,10}".prop_map(Sec::Text),
        1 => lit_text(|_| true, "").prop_map(Sec::Text),
    ]
    .boxed()
}
pub fn any_hello() -> BoxedStrategy<Piece> {
    one_of![
        10 => good_hello(),
        1 => near_hello(),
        5 => (0u8..3, any_secret()).prop_map(|(k, s)| Piece::Hello(k, s)),
        1 => (0u8..3, any_secret(), vec(arg_bytes(), 1..3)).prop_map(|(k, s, a)| Piece::HelloArgs(k, s, a)),
        1 => (0u8..3, vec(arg_bytes(), 0..3)).prop_map(|(k, a)| Piece::M(Msg { ty: HELLOS[k as usize].into(), args: a })),
    ]
    .boxed()
}
pub fn made_hello() -> BoxedStrategy<Piece> {
    (0u8..6).prop_map(|i| Piece::Hello(0, Sec::Made(i))).boxed()
}
pub const COMMANDS: [&str; 13] = [
    "echo", "echo-twice", "silent", "invalid", "cast", "die", "die-invalid", "die-unknown", "echo-die", "to-stdout",
    "to-stdin-invalid", "unknown", "to-handshake",
];
fn small_args() -> BoxedStrategy<Vec<B>> {
    one_of![
        6 => vec(arg_bytes(), 0..3),
        1 => vec((0u8..=255, 900usize..1100).prop_map(|(b, n)| B(vec![b; n])), 1..2),
        1 => cycled(lit_size(200), arg_bytes()),
    ]
    .boxed()
}
pub fn command() -> BoxedStrategy<Piece> {
    (
        one_of![
            20 => select(vec!["echo", "silent", "invalid", "cast", "unknown"]),
            4 => Just("echo-twice"),
            2 => select(COMMANDS.to_vec()),
        ],
        small_args(),
    )
        .prop_map(|(c, a)| Piece::M(Msg { ty: format!("test1.{}", c), args: a }))
        .boxed()
}
fn known_module() -> BoxedStrategy<String> {
    one_of![
        6 => select(vec![
            "core1", "core2", "core10", "core", "posix1", "posix2", "test1", "test2", "limit65535", "limit1", "foo1", "Core1",
            "core1.0", "test1.7", "core01", "core0", "core65535", "core65536",
        ])
        .prop_map(String::from),
        3 => module(),
        1 => (990usize..1100, 1u32..70000).prop_map(|(n, v)| format!("{}{}", "m".repeat(n), v)),
    ]
    .boxed()
}
pub fn want() -> BoxedStrategy<Piece> {
    one_of![
        8 => known_module().prop_map(|m| Piece::M(Msg { ty: "want".into(), args: vec![B(m.into_bytes())] })),
        1 => vec(arg_bytes(), 0..3).prop_map(|a| Piece::M(Msg { ty: "want".into(), args: a })),
    ]
    .boxed()
}
fn stray_message() -> BoxedStrategy<Piece> {
    one_of![
        6 => msg(3).prop_map(Piece::M),
        3 => (known_module(), ident(), vec(arg_bytes(), 0..3)).prop_map(|(m, i, a)| {
            let ty = format!("{}.{}", m, i);
            let ty = if crate::refmodel::is_message_type(ty.as_bytes()) { ty } else { "nope".into() };
            Piece::M(Msg { ty, args: a })
        }),
        3 => (select(PREDEF.to_vec()), vec(arg_bytes(), 0..5))
            .prop_map(|(t, a)| Piece::M(Msg { ty: t.into(), args: a })),
        1 => (select(vec!["have", "nope"]), known_module())
            .prop_map(|(t, m)| Piece::M(Msg { ty: t.into(), args: vec![B(m.into_bytes())] })),
    ]
    .boxed()
}
/// Lifetime requests that are well-formed (or nearly so).
pub fn lifetime() -> BoxedStrategy<Piece> {
    let scr = one_of![
        8 => (select(vec!["", "screen1"]), select(vec!["", "screen1"]), select(vec!["", "s2"]))
            .prop_map(|(a, b, c)| [a.to_string(), b.to_string(), c.to_string()]),
        1 => screens(),
    ];
    let scr2 = scr.clone();
    one_of![
        6 => (suffix(), scr).prop_map(|(s, x)| Piece::MakeBelow(s, x)),
        3 => (small_id(), scr2).prop_map(|(s, x)| Piece::Make(s, x)),
        4 => suffix().prop_map(Piece::EndBelow),
        2 => small_id().prop_map(Piece::End),
        1 => (select(vec!["core1.client-make", "core1.client-end"]), vec(one_of![
                4 => small_id().prop_map(|s| B(s.into_bytes())),
                1 => arg_bytes()
            ], 0..6)).prop_map(|(t, a)| Piece::M(Msg { ty: t.into(), args: a })),
    ]
    .boxed()
}
pub fn message_piece() -> BoxedStrategy<Piece> {
    one_of![5 => want(), 6 => command(), 5 => stray_message(), 4 => lifetime(), 1 => any_hello()].boxed()
}
pub fn garbage() -> BoxedStrategy<Piece> {
    one_of![
        3 => wire_soup(1..24).prop_map(|v| Piece::Raw(B(v))),
        2 => vec(any::<u8>(), 1..12).prop_map(|v| Piece::Raw(B(v))),
        2 => "[a-z\\n ]{1,20}".prop_map(|s| Piece::Raw(B(s.into_bytes()))),
        1 => vec(select(vec![b'{', b'{', b'}', b'x']), 1..30).prop_map(|v| Piece::Raw(B(v))),
        4 => (message_piece(), vec(edit(), 1..3)).prop_map(|(p, e)| Piece::Edited(Box::new(p), e)),
        2 => (message_piece(), any::<u8>()).prop_map(|(p, n)| Piece::Trunc(Box::new(p), n)),
        1 => assembled().prop_map(|v| Piece::Raw(B(v))),
        1 => lit_arg().prop_map(|v| Piece::Raw(B(v))),
        2 => separator(),
    ]
    .boxed()
}

/// What people put between messages.
fn separator() -> BoxedStrategy<Piece> {
    let few: Vec<&[u8]> = vec![
        b"\n", b"\r\n", b"\r", b" ", b"\t", b"\0", b",", b";", b"}", b"}}", b"\n\n", b"\x1b", b"\x7f", b"\x04", b"  ", b"\xef\xbb\xbf", b"\xff", b"|", b":",
    ];
    one_of![
        3 => select(few).prop_map(|v| Piece::Raw(B(v.to_vec()))),
        1 => vec(select(b"\r\n \t\0,;}|:".to_vec()), 1..4).prop_map(|v| Piece::Raw(B(v))),
    ]
    .boxed()
}
fn prelude(n: usize) -> Vec<Op> {
    let mut v = vec![];
    for i in 0..n {
        v.push(Op::Open);
        v.push(Op::Send(i as u8, vec![Piece::Hello(0, Sec::Client(i as u8))]));
    }
    v
}
fn history(
    s: BoxedStrategy<Setup>,
    pre: usize,
    op: BoxedStrategy<Op>,
    n: std::ops::Range<usize>,
) -> BoxedStrategy<History> {
    (s, vec(op, n))
        .prop_map(move |(setup, body)| {
            let mut ops = prelude(pre.min(setup.clients.len()));
            ops.extend(body);
            History { setup, ops }
        })
        .boxed()
}
/// Few different operations and messages, very often: what happens only the n-th time.
fn repeated(s: BoxedStrategy<Setup>, pre: usize, piece: BoxedStrategy<Piece>, op: BoxedStrategy<Op>) -> BoxedStrategy<History> {
    let n = |max: usize| one_of![3 => lit_size(max), 2 => 2usize..max, 1 => 2usize..20].boxed();
    let many = (conn_no(), piece, n(1100)).prop_map(|(c, p, n)| Op::Send(c, vec![Piece::Repeat(Box::new(p), n as u16)]));
    let body = one_of![
        3 => (vec(op.clone(), 0..3), vec(many, 1..4), vec(op.clone(), 0..4)).prop_map(|(mut a, b, c)| {
            a.extend(b);
            a.extend(c);
            a
        }),
        1 => (cycled(n(130), op.clone()), vec(op, 0..4)).prop_map(|(mut a, b)| { a.extend(b); a }),
    ];
    (s, body)
        .prop_map(move |(setup, body)| {
            let mut ops = prelude(pre.min(setup.clients.len()));
            ops.extend(body);
            History { setup, ops }
        })
        .boxed()
}
const REPEATED: &str = "every history: one message up to 1100 times, or a cycle of up to three operations up to 130 steps long";
fn repeated_case(f: impl Fn(&History, &mut Obs) -> Res) -> impl Fn(&History, &mut Obs) -> Res {
    move |h, o| {
        let r = f(h, o);
        o.nontrivial = true;
        r
    }
}
pub fn conn_no() -> BoxedStrategy<u8> {
    one_of![3 => 0u8..3, 1 => 0u8..8].boxed()
}
pub fn send(p: BoxedStrategy<Piece>, n: std::ops::Range<usize>) -> BoxedStrategy<Op> {
    (conn_no(), vec(p, n)).prop_map(|(c, p)| Op::Send(c, p)).boxed()
}

// ---------------------------------------------------------------------------------------------------------

type Each<'a> = &'a mut dyn FnMut(&Step, &Snap, &Snap, &Model) -> Res;
fn on_mock(h: &History, a: &Aspects, each: Each) -> Res {
    let mut w = MockWorld::new(&h.setup);
    run_history(&mut w, h, a, each)
}
fn on_tokio(h: &History, a: &Aspects, each: Each) -> Res {
    let mut w = TokioWorld::new(&h.setup);
    let a = Aspects { transport: true, ..*a };
    let r = run_history(&mut w, h, &a, each);
    w.finish();
    r
}

// ---- C16 ----
const C16: Aspects = Aspects {
    out: true,
    silence: false,
    state: true,
    left: false,
    clients: true,
    auth: true,
    registered: true,
    seen: true,
    inner: true,
    hs: false,
    stdout: true,
    discards: false,
    parse_errors: false,
    transport: false,
    only_handshake: true,
};

fn c16_ops() -> BoxedStrategy<Op> {
    let first = one_of![
        14 => any_hello(),
        2 => (any_hello(), vec(edit(), 1..3)).prop_map(|(p, e)| Piece::Edited(Box::new(p), e)),
        2 => (any_hello(), any::<u8>()).prop_map(|(p, n)| Piece::Trunc(Box::new(p), n)),
        2 => message_piece(),
        1 => garbage(),
    ]
    .boxed();
    // sent on connections in any mode; only handshakes are at stake, so modes other than handshake get harmless input
    one_of![
        3 => Just(Op::Open),
        8 => (0u8..8, vec(first.clone(), 1..2)).prop_map(|(c, p)| Op::Send(c, p)),
        2 => (0u8..8, vec(first, 2..4)).prop_map(|(c, p)| Op::Send(c, p)),
        2 => (0u8..8, any_hello(), 1usize..3).prop_map(|(c, p, n)| {
            let mut v = vec![p];
            v.extend((0..n).map(|_| Piece::M(Msg::new("want", &[b"core1"]))));
            Op::Send(c, v)
        }),
        1 => (0u8..8).prop_map(Op::Close),
    ]
    .boxed()
}

fn c16_case(
    h: &History,
    obs: &mut Obs,
    run: fn(&History, &Aspects, Each) -> Res,
) -> Res {
    let mut authorised = 0;
    let mut refused = 0;
    let mut prev: Option<Snap> = None;
    let r = run(h, &C16, &mut |step, _, want, _| {
        if let Step::Send(i, _) = step {
            let before = prev.as_ref().map(|p| p.state[i].clone()).unwrap_or_default();
            let after = &want.state[i];
            if before == "Handshake" {
                if after != "Handshake" && want.log.iter().any(|e| matches!(e, Ev::Authorized(..))) {
                    authorised += 1;
                } else if after == "Teardown" {
                    refused += 1;
                }
            }
        }
        prev = Some(want.clone());
        Ok(())
    });
    obs.class_if(authorised > 0, "authorised");
    obs.class_if(refused > 0, "refused");
    obs.nontrivial_if(authorised > 0 && refused > 0);
    r
}

pub fn c16(s: &mut Suite) {
    let rule = "history with both an authorised handshake and a refused one";
    let st = || history(setup(1..4, 1..3, false), 0, c16_ops(), 4..24);
    s.sub("memory", (40_000, 2_000_000), rule, st(), |h: &History, obs| c16_case(h, obs, on_mock));
    s.sub("tokio", (2_400, 60_000), rule, st(), |h: &History, obs| c16_case(h, obs, on_tokio));
    let st = repeated(setup(1..4, 1..3, false), 0, any_hello(), c16_ops());
    s.sub("repeated", (12_000, 300_000), REPEATED, st, repeated_case(|h, obs| c16_case(h, obs, on_mock)));
}

// ---- C17 ----
const C17: Aspects = Aspects { out: true, inner: true, seen: true, state: true, ..NOTHING };
const NOTHING: Aspects = Aspects {
    out: false,
    silence: false,
    state: false,
    left: false,
    clients: false,
    auth: false,
    registered: false,
    seen: false,
    inner: false,
    hs: false,
    stdout: false,
    discards: false,
    parse_errors: false,
    transport: false,
    only_handshake: false,
};

fn c17_case(h: &History, obs: &mut Obs, run: fn(&History, &Aspects, Each) -> Res) -> Res {
    let mut haves = 0;
    let mut nopes = 0;
    let mut others = 0;
    let mut dead = 0;
    let r = run(h, &C17, &mut |_, _, want, _| {
        haves = 0;
        nopes = 0;
        others = 0;
        for o in want.out.values() {
            let t = String::from_utf8_lossy(o);
            haves += t.matches("|4:have,").count();
            nopes += t.matches("|4:nope,").count();
            others += t.matches(":test1.echoed,").count();
        }
        dead = want.state.values().filter(|s| *s == "Teardown").count();
        Ok(())
    });
    obs.class_if(haves > 0, "have");
    obs.class_if(nopes > 0, "nope");
    obs.class_if(others > 0, "application reply");
    obs.class_if(dead > 0, "closed");
    obs.nontrivial_if((haves > 0) as u8 + (nopes > 0) as u8 + (others > 0) as u8 >= 2);
    r
}

pub fn c17(s: &mut Suite) {
    let rule = "history with replies of at least two sorts (have, nope, application's own)";
    let op = || one_of![10 => send(message_piece(), 1..5), 1 => Just(Op::Open)].boxed();
    let st = || history(setup(2..4, 1..2, true), 3, op(), 1..12);
    s.sub("memory", (60_000, 3_000_000), rule, st(), |h: &History, obs| c17_case(h, obs, on_mock));
    s.sub("tokio", (2_400, 60_000), rule, st(), |h: &History, obs| c17_case(h, obs, on_tokio));
    let st = repeated(setup(2..4, 1..2, true), 3, message_piece(), op());
    s.sub("repeated", (800, 40_000), REPEATED, st, repeated_case(|h, obs| c17_case(h, obs, on_mock)));
    // replies of every length around the limit
    s.sub(
        "reply_length",
        (20_000, 600_000),
        "reply of 1000..1050 bytes",
        (0u8..4, 960usize..1050, 1u32..70_000),
        |&(kind, n, v), obs| {
            let name = "m".repeat(n);
            let p = match kind {
                0 => Msg::new("want", &[format!("{}{}", name, v.clamp(1, 65535)).as_bytes()]),
                1 => Msg::new(&format!("{}{}.x", name, v.clamp(1, 65535)), &[]),
                2 => Msg::new("test1.echo", &[name.as_bytes()]),
                _ => Msg::new("test1.echo-twice", &[name.as_bytes()]),
            };
            let setup = Setup {
                clients: vec![ClientSpec { id: "a".into(), scr: Default::default(), secret: "k".into() }],
                screens: vec![],
            };
            let mut ops = prelude(1);
            ops.push(Op::Send(0, vec![Piece::M(p), Piece::M(Msg::new("want", &[b"core1"]))]));
            let h = History { setup, ops };
            on_mock(&h, &C17, &mut |_, _, want, _| {
                obs.class_if(want.state.get(&0).map_or(false, |s| s == "Teardown"), "too long");
                obs.nontrivial = true;
                Ok(())
            })
        },
    );
}

// ---- C18 ----
const C18: Aspects = Aspects {
    silence: true,
    state: true,
    left: true,
    seen: true,
    discards: true,
    parse_errors: true,
    ..NOTHING
};

fn c18_case(h: &History, obs: &mut Obs, run: fn(&History, &Aspects, Each) -> Res) -> Res {
    let mut discarded = false;
    let mut handled_after = false;
    let mut pending = false;
    let r = run(h, &C18, &mut |_, _, want, _| {
        for e in &want.log {
            match e {
                Ev::Discarded(_) => discarded = true,
                Ev::Seen(..) => handled_after |= discarded,
                _ => {}
            }
        }
        pending |= want.left.values().any(|l| !l.is_empty());
        Ok(())
    });
    obs.class_if(discarded, "discard");
    obs.class_if(handled_after, "message after discard");
    obs.class_if(pending, "incomplete message left in the buffer");
    obs.nontrivial_if(discarded && handled_after);
    r
}

/// Messages without effects on connections, so that only parsing is at stake.
fn harmless() -> BoxedStrategy<Piece> {
    one_of![
        3 => Just(Piece::M(Msg::new("want", &[b"core1"]))),
        2 => vec(arg_bytes(), 0..3).prop_map(|a| Piece::M(Msg { ty: "test1.silent".into(), args: a })),
        2 => vec(wire_soup(0..12).prop_map(B), 0..3).prop_map(|a| Piece::M(Msg { ty: "test1.echo".into(), args: a })),
        1 => Just(Piece::M(Msg::new("foo1.bar", &[]))),
    ]
    .boxed()
}
fn harmless_garbage() -> BoxedStrategy<Piece> {
    one_of![
        3 => wire_soup(1..24).prop_map(|v| Piece::Raw(B(v))),
        2 => vec(any::<u8>(), 1..12).prop_map(|v| Piece::Raw(B(v))),
        2 => "[a-z\\n ]{1,20}".prop_map(|s| Piece::Raw(B(s.into_bytes()))),
        1 => vec(select(vec![b'{', b'{', b'}', b'x']), 1..30).prop_map(|v| Piece::Raw(B(v))),
        5 => (harmless(), vec(edit(), 1..3)).prop_map(|(p, e)| Piece::Edited(Box::new(p), e)),
        3 => (harmless(), any::<u8>()).prop_map(|(p, n)| Piece::Trunc(Box::new(p), n)),
        1 => assembled().prop_map(|v| Piece::Raw(B(v))),
        3 => separator(),
        1 => lit_arg().prop_map(|v| Piece::Raw(B(v))),
    ]
    .boxed()
}

pub fn c18(s: &mut Suite) {
    let rule = "history in which bytes are discarded and a message is handled afterwards";
    let op = || {
        one_of![
            6 => send(one_of![harmless_garbage(), harmless()].boxed(), 1..5),
            2 => send(harmless_garbage(), 1..2),
            2 => send(harmless(), 1..3),
        ]
        .boxed()
    };
    let st = || history(setup(2..3, 1..2, true), 2, op(), 1..12);
    s.sub("memory", (60_000, 3_000_000), rule, st(), |h: &History, obs| c18_case(h, obs, on_mock));
    s.sub("tokio", (2_400, 60_000), rule, st(), |h: &History, obs| c18_case(h, obs, on_tokio));
    let st = repeated(setup(2..3, 1..2, true), 2, one_of![harmless_garbage(), harmless()].boxed(), op());
    s.sub("repeated", (800, 40_000), REPEATED, st, repeated_case(|h, obs| c18_case(h, obs, on_mock)));
}

// ---- C19 ----
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Stream {
    setup: Setup,
    pieces: Vec<Piece>,
    /// cut positions, as fractions of the stream (of 65536 parts)
    cuts: Vec<u16>,
}

fn stream() -> BoxedStrategy<Stream> {
    let first = one_of![8 => good_hello(), 1 => any_hello(), 1 => garbage()];
    let rest = one_of![
        6 => message_piece(),
        4 => garbage(),
        1 => (0u32..3000).prop_map(|n| Piece::Raw(B(vec![b'z'; n as usize]))),
        1 => (1000u32..3000).prop_map(|n| Piece::M(Msg { ty: "test1.silent".into(), args: vec![B(vec![b'q'; n as usize])] })),
    ];
    (setup(2..4, 1..3, true), first, vec(rest, 0..10), vec(any::<u16>(), 0..12))
        .prop_map(|(setup, f, r, cuts)| {
            let mut pieces = vec![f];
            pieces.extend(r);
            Stream { setup, pieces, cuts }
        })
        .boxed()
}

#[derive(Clone)]
struct Effects {
    out: Vec<Vec<u8>>,
    states: Vec<String>,
    log: Vec<Ev>,
    clients: Vec<(String, Screens)>,
}

/// Replaces secrets, which differ from run to run.
fn canon(b: &[u8], made: &[String]) -> Vec<u8> {
    let mut v = b.to_vec();
    for (k, m) in made.iter().enumerate() {
        let m = m.as_bytes();
        let mut i = 0;
        while i + m.len() <= v.len() {
            if &v[i..i + m.len()] == m {
                let mut tag = format!("<{}>", k).into_bytes();
                tag.resize(m.len(), b'=');
                v[i..i + m.len()].copy_from_slice(&tag);
            }
            i += 1;
        }
    }
    v
}

fn run_stream(w: &mut dyn World, bytes: &[u8], cuts: &[usize]) -> Result<Effects, String> {
    w.step(&Step::Open)?;
    w.step(&Step::Open)?;
    let mut log = vec![];
    let mut last = None;
    // an observer: another client, which can be ended and gets broadcasts
    let obs = w.app().lock().clients.last().map(|c| c.2.clone()).unwrap_or_default();
    w.step(&Step::Send(1, crate::refmodel::ref_format(&[b"posix1.client-hello", obs.as_bytes()])))?;
    let mut pos = 0;
    let mut ends: Vec<usize> = cuts.to_vec();
    ends.push(bytes.len());
    for e in ends {
        if e <= pos {
            continue;
        }
        let snap = w.step(&Step::Send(0, bytes[pos..e].to_vec()))?;
        pos = e;
        for ev in &snap.log {
            push_ev(&mut log, ev.clone());
        }
        last = Some(snap);
    }
    let app = w.app();
    let made = app.lock().made.clone();
    let last = match last {
        Some(s) => s,
        None => w.step(&Step::Close(1))?,
    };
    let log: Vec<Ev> = log
        .into_iter()
        .filter(|e| {
            !matches!(e, Ev::Opened | Ev::Closed | Ev::IoError | Ev::ParseError(..) | Ev::HsInner(..))
        })
        .collect();
    let mut merged = vec![];
    for e in log {
        push_ev(&mut merged, e);
    }
    Ok(Effects {
        out: last.out.values().map(|o| canon(o, &made)).collect(),
        states: last.state.values().cloned().collect(),
        log: merged,
        clients: last.clients,
    })
}

fn same_effects(a: &Effects, b: &Effects, transport: bool, what: &str) -> Res {
    ensure_eq!(a.states, b.states, "{}: final states", what);
    ensure_eq!(a.clients, b.clients, "{}: registered clients", what);
    for (i, (x, y)) in a.out.iter().zip(&b.out).enumerate() {
        let dead = a.states[i] == "Teardown";
        let ok = if transport && dead { x.starts_with(y) || y.starts_with(x) } else { x == y };
        ensure!(ok, "{}: bytes sent to connection {}: {:?} versus {:?}", what, i, B(x.clone()), B(y.clone()));
    }
    // what is discarded at teardown is whatever had arrived
    let n = a.log.len().max(b.log.len());
    for i in 0..n {
        let (x, y) = (a.log.get(i), b.log.get(i));
        if let (Some(Ev::Discarded(p)), Some(Ev::Discarded(q))) = (x, y) {
            if i + 1 == n && a.states[0] == "Teardown" && (p.starts_with(q) || q.starts_with(p)) {
                continue;
            }
        }
        ensure!(x == y, "{}: application saw {:?} versus {:?} at {} in {:?} versus {:?}", what, x, y, i, a.log, b.log);
    }
    Ok(())
}

fn cuts_of(s: &Stream, n: usize) -> Vec<usize> {
    let mut c: Vec<usize> = s.cuts.iter().map(|&c| (c as usize * n) / 65536).collect();
    c.sort();
    c
}
fn stream_bytes(s: &Stream) -> Vec<u8> {
    let me = match &s.pieces.first() {
        Some(Piece::Hello(0, Sec::Client(i))) if !s.setup.clients.is_empty() => {
            Some(s.setup.clients[*i as usize % s.setup.clients.len()].id.clone())
        }
        _ => None,
    };
    let r = Resolver { setup: &s.setup, made: vec![], me };
    s.pieces.iter().flat_map(|p| r.piece(p)).collect()
}

pub fn c19(s: &mut Suite) {
    let rule = "stream that is cut at least once and has at least three effects";
    s.sub("memory", (30_000, 1_500_000), rule, stream(), |st: &Stream, obs| {
        let bytes = stream_bytes(st);
        let cuts = cuts_of(st, bytes.len());
        let whole = run_stream(&mut MockWorld::new(&st.setup), &bytes, &[])?;
        let cut = run_stream(&mut MockWorld::new(&st.setup), &bytes, &cuts)?;
        same_effects(&whole, &cut, false, "whole versus cut")?;
        let every: Vec<usize> = (1..bytes.len()).collect();
        if bytes.len() < 1200 {
            let bytewise = run_stream(&mut MockWorld::new(&st.setup), &bytes, &every)?;
            same_effects(&whole, &bytewise, false, "whole versus byte by byte")?;
            obs.class("byte by byte");
        }
        obs.class_if(whole.states[0] == "Teardown", "ends in teardown");
        obs.nontrivial_if(!cuts.is_empty() && whole.log.len() >= 3);
        Ok(())
    });
    // a message is acted on as soon as its last byte is there
    s.sub(
        "promptly",
        (10_000, 500_000),
        "byte-by-byte stream with at least two messages or stdout data",
        stream(),
        |st: &Stream, obs| {
            let mut bytes = stream_bytes(st);
            bytes.truncate(700);
            let mut ops = vec![Op::Open];
            ops.extend(bytes.iter().map(|&b| Op::Send(0, vec![Piece::Raw(B(vec![b]))])));
            let h = History { setup: st.setup.clone(), ops };
            let a = Aspects { out: true, state: true, left: true, hs: true, seen: true, inner: true, stdout: true, ..NOTHING };
            let mut n = 0;
            let r = on_mock(&h, &a, &mut |_, _, want, _| {
                n += want.log.iter().filter(|e| matches!(e, Ev::Seen(..) | Ev::Stdout(..))).count();
                Ok(())
            });
            obs.nontrivial_if(n >= 2);
            r
        },
    );
    s.sub("tokio", (1_600, 60_000), rule, stream(), |st: &Stream, obs| {
        let bytes = stream_bytes(st);
        let cuts = cuts_of(st, bytes.len());
        let whole = run_stream(&mut MockWorld::new(&st.setup), &bytes, &[])?;
        let mut w = TokioWorld::new(&st.setup);
        let real = run_stream(&mut w, &bytes, &cuts);
        w.finish();
        same_effects(&whole, &real?, true, "in memory versus over a socket in pieces")?;
        let mut w = TokioWorld::new(&st.setup);
        let real = run_stream(&mut w, &bytes, &[]);
        w.finish();
        same_effects(&whole, &real?, true, "in memory versus over a socket at once")?;
        obs.class_if(bytes.len() > 1024, "more than one receive buffer");
        obs.nontrivial_if(!cuts.is_empty() && whole.log.len() >= 3);
        Ok(())
    });
}

// ---- C20 ----
const C20: Aspects =
    Aspects { out: true, state: true, clients: true, auth: true, registered: true, ..NOTHING };

fn c20_case(h: &History, obs: &mut Obs, run: fn(&History, &Aspects, Each) -> Res) -> Res {
    let mut made = 0;
    let mut ended = 0;
    let mut refused = 0;
    let mut closed_by_end = 0;
    let mut redeemed = 0;
    let mut prev: Option<Snap> = None;
    let n_initial = h.setup.clients.len();
    let r = run(h, &C20, &mut |step, real, want, _| {
        made += want.log.iter().filter(|e| matches!(e, Ev::Registered(..))).count();
        if let Some(p) = &prev {
            ended += p.clients.iter().filter(|c| !want.clients.contains(c)).count();
            if let Step::Send(i, _) = step {
                for (k, st) in &want.state {
                    if k != i && st == "Teardown" && p.state.get(k).map_or(false, |s| s.starts_with("Msgio")) {
                        closed_by_end += 1;
                    }
                }
                if want.log.iter().any(|e| matches!(e, Ev::Authorized(..))) {
                    redeemed += 1;
                }
                let now = String::from_utf8_lossy(&want.out[i]).matches("|4:nope,").count();
                let before = p.out.get(i).map_or(0, |o| String::from_utf8_lossy(o).matches("|4:nope,").count());
                refused += now - before;
            }
        }
        // exactly one registration per ID
        for w in real.clients.windows(2) {
            ensure!(w[0].0 != w[1].0 || n_initial == 0, "client ID {} is registered twice", w[0].0);
        }
        prev = Some(want.clone());
        Ok(())
    });
    obs.class_if(made > 0, "client made");
    obs.class_if(ended > 0, "client ended");
    obs.class_if(closed_by_end > 0, "connection closed by client-end");
    obs.class_if(refused > 0, "request refused");
    obs.class_if(redeemed > 0, "secret redeemed");
    obs.nontrivial_if(made > 0 && ended > 0 && refused > 0);
    r
}

pub fn c20(s: &mut Suite) {
    let rule = "history with a successful client-make, a client-end that removes a client, and a refused request";
    let op = || {
        one_of![
            8 => send(lifetime(), 1..2),
            4 => send(lifetime(), 2..5),
            3 => Just(Op::Open),
            // redeem secrets on whatever connection is there, mostly the latest ones
            4 => (0u8..12, made_hello()).prop_map(|(c, p)| Op::Send(c, vec![p])),
            2 => (0u8..12, (0u8..4).prop_map(|i| Piece::Hello(0, Sec::Client(i)))).prop_map(|(c, p)| Op::Send(c, vec![p])),
            1 => (0u8..12, (0u8..4, 1u8..3).prop_map(|(i, k)| Piece::Hello(k, sec_for(k, i)))).prop_map(|(c, p)| Op::Send(c, vec![p])),
            1 => (0u8..12).prop_map(Op::Close),
        ]
        .boxed()
    };
    let st = |n| history(setup(2..5, 1..2, true), 2, op(), n);
    s.sub("memory", (60_000, 3_000_000), rule, st(4..30), |h: &History, obs| c20_case(h, obs, on_mock));
    s.sub("tokio", (2_400, 60_000), rule, st(4..24), |h: &History, obs| c20_case(h, obs, on_tokio));
    let rep = repeated(setup(2..5, 1..2, true), 2, lifetime(), op());
    s.sub("repeated", (4_000, 100_000), REPEATED, rep, repeated_case(|h, obs| c20_case(h, obs, on_mock)));
    // many clients
    let many = (one_of![3 => lit_size(240), 2 => 5usize..240], vec((0u16..260, any::<bool>()), 0..6), one_of![3 => vec(0u16..260, 0..6), 2 => vec(0u16..260, 6..40)]);
    s.sub(
        "many",
        (800, 30_000),
        "more than 20 clients made by one other, some connected, some ended",
        many,
        |(n, ends, hellos), obs| {
            let name = |k: usize| std::char::from_digit(k as u32 / 20, 36).unwrap().to_string() + &std::char::from_digit(k as u32 % 20, 36).unwrap().to_string();
            let setup = Setup { clients: vec![ClientSpec { id: "r".into(), scr: Default::default(), secret: "root".into() }], screens: vec![] };
            let mut ops = prelude(1);
            ops.push(Op::Send(0, (0..*n).map(|k| Piece::MakeBelow(name(k), Default::default())).collect()));
            for h in hellos {
                ops.push(Op::Open);
                ops.push(Op::Send(ops.iter().filter(|o| matches!(o, Op::Open)).count() as u8 - 1, vec![Piece::Hello(0, Sec::Made((*h as usize % n).min(255) as u8))]));
            }
            for (e, whole) in ends {
                let id = name(*e as usize % n);
                ops.push(Op::Send(0, vec![Piece::EndBelow(if *whole { id[..1].to_string() } else { id })]));
            }
            ops.push(Op::Send(0, (0..*n).step_by(7).map(|k| Piece::MakeBelow(name(k), Default::default())).collect()));
            let h = History { setup, ops };
            let r = c20_case(&h, obs, on_mock);
            obs.nontrivial = *n > 20 && !hellos.is_empty() && !ends.is_empty();
            r
        },
    );
    // many connections of one family, ended at a random point of the tree
    let family = (
        vec(vec(select(vec!['a', 'b']), 1..=4).prop_map(|v| v.into_iter().collect::<String>()), 2..12),
        suffix(),
        any::<bool>(),
    );
    s.sub(
        "family",
        (20_000, 800_000),
        "client-end that closes some but not all of the other connections",
        family,
        |(ids, end, tk), obs| {
            let mut clients = vec![ClientSpec { id: "a".into(), scr: Default::default(), secret: "root".into() }];
            for id in ids {
                if clients.iter().all(|c| c.id != *id) {
                    clients.push(ClientSpec { id: id.clone(), scr: Default::default(), secret: format!("s{}", clients.len()) });
                }
            }
            let setup = Setup { clients, screens: vec![ScreenSpec { id: "ab".into(), stdin: "i".into(), stdout: "o".into() }] };
            let n = setup.clients.len();
            let mut ops = prelude(n);
            // sockets in other modes are nobody's message connections, whatever the name of the screen
            ops.push(Op::Open);
            ops.push(Op::Send(n as u8, vec![Piece::Hello(1, Sec::Stdin(0))]));
            ops.push(Op::Open);
            ops.push(Op::Send(n as u8 + 1, vec![Piece::Hello(2, Sec::Stdout(0))]));
            ops.push(Op::Open);
            ops.push(Op::Send(0, vec![Piece::EndBelow(end.clone())]));
            for i in 0..n {
                ops.push(Op::Open);
                ops.push(Op::Send((n + 3 + i) as u8, vec![Piece::Hello(0, Sec::Client(i as u8))]));
            }
            ops.push(Op::Send(0, vec![Piece::MakeBelow(end.clone(), Default::default())]));
            let h = History { setup, ops };
            let mut closed = 0;
            let mut open = 0;
            let run = if *tk && ids.len() < 5 { on_tokio } else { on_mock };
            let r = run(&h, &C20, &mut |step, _, want, _| {
                if let Step::Send(0, _) = step {
                    closed = want.state.values().filter(|s| *s == "Teardown").count();
                    open = want.state.values().filter(|s| s.starts_with("Msgio")).count();
                }
                Ok(())
            });
            obs.nontrivial_if(closed > 0 && open > 1);
            r
        },
    );
}

// ---- C21 ----
const C21: Aspects = Aspects { out: true, state: true, stdout: true, discards: true, seen: true, hs: true, clients: true, auth: true, ..NOTHING };

fn c21_case(h: &History, obs: &mut Obs, run: fn(&History, &Aspects, Each) -> Res) -> Res {
    let mut stdout_steps = 0;
    let mut messagelike = false;
    let mut stdin_closed = 0;
    let mut prev: Option<Snap> = None;
    let r = run(h, &C21, &mut |step, _, want, _| {
        if let (Step::Send(i, b), Some(p)) = (step, &prev) {
            let before = p.state.get(i).cloned().unwrap_or_default();
            if before.starts_with("Stdout") {
                stdout_steps += 1;
                messagelike |= b.contains(&b'{');
            }
            if before.starts_with("Stdin") {
                stdin_closed += 1;
            }
        }
        prev = Some(want.clone());
        Ok(())
    });
    obs.class_if(stdout_steps > 0, "stdout data");
    obs.class_if(messagelike, "stdout data that looks like messages");
    obs.class_if(stdin_closed > 0, "input on stdin socket");
    obs.nontrivial_if((stdout_steps >= 2 && messagelike) || stdin_closed > 0);
    r
}

pub fn c21(s: &mut Suite) {
    let rule = "history with message-like data on a stdout socket, or input on a stdin socket";
    let data = || {
        one_of![
            4 => vec(any::<u8>(), 1..40).prop_map(|v| Piece::Raw(B(v))),
            3 => message_piece(),
            2 => garbage(),
            1 => any_hello(),
            1 => (1u32..4000, any::<u8>()).prop_map(|(n, b)| Piece::Raw(B(vec![b; n as usize]))),
        ]
        .boxed()
    };
    let op = move || {
        one_of![
            8 => (0u8..6, vec(data(), 1..4)).prop_map(|(c, p)| Op::Send(c, p)),
            2 => Just(Op::Open),
            3 => (0u8..8, 1u8..3, 0u8..3, vec(data(), 0..3)).prop_map(|(c, k, i, d)| {
                let mut p = vec![Piece::Hello(k, sec_for(k, i))];
                p.extend(d);
                Op::Send(c, p)
            }),
        ]
        .boxed()
    };
    let st = move || {
        (setup(1..2, 2..4, true), vec(op(), 3..16), vec(1u8..3, 1..4))
            .prop_map(|(setup, body, kinds)| {
                let mut ops = vec![];
                for (i, k) in kinds.iter().enumerate() {
                    ops.push(Op::Open);
                    ops.push(Op::Send(i as u8, vec![Piece::Hello(*k, sec_for(*k, i as u8))]));
                }
                ops.extend(body);
                History { setup, ops }
            })
            .boxed()
    };
    s.sub("memory", (40_000, 2_000_000), rule, st(), |h: &History, obs| c21_case(h, obs, on_mock));
    s.sub("tokio", (2_400, 60_000), rule, st(), |h: &History, obs| c21_case(h, obs, on_tokio));
    let st = (repeated(setup(1..2, 2..4, true), 0, data(), op()), vec(1u8..3, 1..4))
        .prop_map(|(h, kinds)| {
            let mut ops = vec![];
            for (i, k) in kinds.iter().enumerate() {
                ops.push(Op::Open);
                ops.push(Op::Send(i as u8, vec![Piece::Hello(*k, sec_for(*k, i as u8))]));
            }
            ops.extend(h.ops);
            History { setup: h.setup, ops }
        })
        .boxed();
    s.sub("repeated", (1_600, 60_000), REPEATED, st, repeated_case(|h, obs| c21_case(h, obs, on_mock)));
}
