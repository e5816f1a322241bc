//! C31: what a connection says about itself, and who gets what is meant for one screen or one kind of connection.

use crate::fw::*;
use crate::refmodel::*;
use crate::srv::*;
use crate::tok::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use vt6::common::core::ClientID;
use vt6::server::{ClientIdentity, Connection, ConnectionState, MessageConnector, ScreenIdentity, StdoutConnector};

/// Screen names that are easily taken for one another.
const NAMES: [&str; 18] = [
    "s", "s1", "s10", "S", "S1", "screen", "screen1", "screen11", "Screen1", "1", "01", " s", "s ", "s\0", "\u{e4}", "\u{c4}",
    "a\u{308}", "",
];
fn name() -> BoxedStrategy<String> {
    one_of![
        8 => select(NAMES.to_vec()).prop_map(String::from),
        1 => "\\PC{0,8}",
        1 => (1usize..600).prop_map(|n| "y".repeat(n)),
    ]
    .boxed()
}
/// Another name at a small distance.
fn near(s: &str, how: u8) -> String {
    match how % 9 {
        0 => s.to_string(),
        1 => format!("{}1", s),
        2 => format!("1{}", s),
        3 => s.chars().take(s.chars().count().saturating_sub(1)).collect(),
        4 => s.chars().skip(1).collect(),
        5 => s.to_uppercase(),
        6 => s.to_lowercase(),
        7 => s.chars().rev().collect(),
        _ => format!("{} ", s),
    }
}

/// Everything a connection can be asked, as one string.
fn answers(conn: &mut MConn, screen: &str) -> String {
    let st = conn.state();
    format!(
        "{} messages:{} stdin:{} stdin for the screen:{} message connector:{:?} stdout connector:{:?}",
        st.type_name(),
        st.can_receive_messages(),
        st.can_receive_stdin(),
        st.can_receive_stdin_for_screen(&ScreenIdentity::new(screen)),
        conn.message_connector().map(|c| c.identity().client_id().as_str().to_string()),
        conn.stdout_connector().map(|c| describe_out(c)),
    )
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Asked {
    /// 0..5: states as in `ConnectionState`
    states: Vec<(u8, String)>,
    asked: Vec<(String, u8)>,
}

fn c31_answers(c: &Asked, o: &mut Obs) -> Res {
    let w = MockWorld::new(&Setup { clients: vec![], screens: vec![] });
    let mut conn: MConn = Connection::new(w.dispatch(), 7);
    ensure_eq!(conn.id(), 7, "ID of the connection");
    let mut matched = false;
    let mut close = false;
    for (k, own) in std::iter::once(&(0u8, String::new())).chain(&c.states) {
        let cid: String = format!("c{}", own.bytes().filter(u8::is_ascii_alphanumeric).map(|b| b as char).collect::<String>());
        let kind = k % 5;
        match kind {
            0 => conn.set_state(ConnectionState::Handshake),
            1 => {
                let id = ClientID::parse(&cid).ok_or("harness: bad client ID")?;
                conn.set_state(ConnectionState::Msgio(MsgConn::new(ClientIdentity::new(&id))))
            }
            2 => conn.set_state(ConnectionState::Stdin(ScreenIdentity::new(own))),
            3 => conn.set_state(ConnectionState::Stdout(OutConn::new(ScreenIdentity::new(own)))),
            _ => conn.set_state(ConnectionState::Teardown),
        }
        let mut asked: Vec<String> = c.asked.iter().map(|a| near(&a.0, a.1)).collect();
        asked.extend((0..9).map(|h| near(own, h)));
        for a in asked {
            let hit = kind == 2 && a == *own;
            matched |= hit;
            close |= kind == 2 && !hit;
            let want = format!(
                "{} messages:{} stdin:{} stdin for the screen:{} message connector:{:?} stdout connector:{:?}",
                ["Handshake", "Msgio", "Stdin", "Stdout", "Teardown"][kind as usize],
                kind < 2,
                kind == 2,
                hit,
                Some(&cid).filter(|_| kind == 1),
                Some(own).filter(|_| kind == 3),
            );
            let got = answers(&mut conn, &a);
            ensure!(got == want, "connection with state {} {:?}, asked for screen {:?}:\n got {}\nwant {}", kind, own, a, got, want);
        }
        if kind == 2 {
            // names are compared as a whole, both ways
            let (x, y) = (ScreenIdentity::new(own), ScreenIdentity::new(&near(own, c.states.len() as u8)));
            ensure_eq!(x.screen_id(), own, "name of the screen");
            ensure_eq!(x == y, own == y.screen_id(), "equality of screen names");
            ensure_eq!(x.clone(), x, "copy of a screen name");
        }
    }
    o.nontrivial_if(matched && close);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum R {
    /// (0: message, 1: stdin, 2: stdout, 3: none) connection, of the i-th client or screen
    Join(u8, u8),
    /// text for the standard input of the screen of this name (variation)
    Feed(String, u8, B),
    FeedOwn(u8, u8, B),
    FeedAll(B),
    Tell(B),
    /// input from this client: ends a stdin connection, is a question on a message connection, output on a stdout connection
    Input(u8),
    Close(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Routes {
    screens: Vec<String>,
    ops: Vec<R>,
}

#[derive(Clone, Debug, PartialEq)]
enum M {
    None,
    Msg,
    In(usize),
    Out(usize),
    Dead,
}

fn c31_routes(c: &Routes, o: &mut Obs) -> Res {
    let mut names: Vec<String> = vec![];
    for s in &c.screens {
        if !names.contains(s) {
            names.push(s.clone());
        }
    }
    let setup = Setup {
        clients: (0..8)
            .map(|i| ClientSpec { id: format!("m{}", i), scr: Default::default(), secret: format!("mk{}", i) })
            .collect(),
        screens: names
            .iter()
            .enumerate()
            .map(|(i, s)| ScreenSpec { id: s.clone(), stdin: format!("ik{}", i), stdout: format!("ok{}", i) })
            .collect(),
    };
    let mut w = TokioWorld::new(&setup);
    let r = routes_inner(&mut w, &names, c, o);
    w.finish();
    r
}

fn routes_inner(w: &mut TokioWorld, names: &[String], c: &Routes, o: &mut Obs) -> Res {
    let mut modes: Vec<M> = vec![];
    let mut want: Vec<Vec<u8>> = vec![];
    let mut used = [[false; 32]; 3];
    let mut both = false;
    for (n, op) in c.ops.iter().enumerate() {
        let at = |e: String| format!("step {} ({:?}): {}", n, op, e);
        let feed = |w: &mut TokioWorld, screen: String, data: &B| {
            let (id, data) = (ScreenIdentity::new(&screen), data.0.clone());
            w.broadcast(move |conn| {
                if conn.state().can_receive_stdin_for_screen(&id) {
                    conn.enqueue_stdin(&data);
                }
            });
        };
        match op {
            R::Join(kind, i) => {
                if modes.len() > 10 {
                    continue;
                }
                let k = w.connect().map_err(at)?;
                modes.push(M::None);
                want.push(vec![]);
                let kind = *kind as usize % 4;
                if kind < 3 {
                    let i = *i as usize % if kind == 0 { 8 } else { names.len() };
                    let sec = format!("{}{}", ["mk", "ik", "ok"][kind], i);
                    w.send(k, &ref_format(&[HELLOS[kind].as_bytes(), sec.as_bytes()]));
                    let fresh = !std::mem::replace(&mut used[kind][i], true);
                    modes[k] = match (fresh, kind) {
                        (false, _) => M::Dead,
                        (_, 0) => {
                            want[k] = ref_format(&[b"posix1.server-hello", format!("m{}", i).as_bytes(), b"", b"", b""]);
                            M::Msg
                        }
                        (_, 1) => M::In(i),
                        _ => M::Out(i),
                    };
                }
            }
            R::Feed(s, how, data) => {
                let s = near(s, *how);
                for (k, m) in modes.iter().enumerate() {
                    if matches!(m, M::In(i) if names[*i] == s) {
                        want[k].extend_from_slice(data);
                    }
                }
                feed(w, s, data);
            }
            R::FeedOwn(i, how, data) => {
                let s = near(&names[*i as usize % names.len()], *how);
                let (mut hit, mut miss) = (false, false);
                for (k, m) in modes.iter().enumerate() {
                    if let M::In(i) = m {
                        if names[*i] == s {
                            want[k].extend_from_slice(data);
                            hit = true;
                        } else {
                            miss = true;
                        }
                    }
                }
                both |= hit && miss;
                feed(w, s, data);
            }
            R::FeedAll(data) => {
                for (k, m) in modes.iter().enumerate() {
                    if matches!(m, M::In(_)) {
                        want[k].extend_from_slice(data);
                    }
                }
                let data = data.0.clone();
                w.broadcast(move |conn| {
                    if conn.state().can_receive_stdin() {
                        conn.enqueue_stdin(&data);
                    }
                });
            }
            R::Tell(data) => {
                let wire = ref_format(&[b"test1.told", data]);
                for (k, m) in modes.iter_mut().enumerate() {
                    if *m == M::Msg {
                        want[k].extend_from_slice(&wire);
                    }
                }
                let data = data.0.clone();
                w.broadcast(move |conn| {
                    if conn.message_connector().is_some() && conn.state().can_receive_messages() {
                        conn.enqueue_message(&Items("test1.told", vec![&data[..]]));
                    }
                });
            }
            R::Input(k) if !modes.is_empty() => {
                let k = *k as usize % modes.len();
                match modes[k] {
                    M::Msg => {
                        w.send(k, b"{2|4:want,5:core1,}");
                        want[k].extend_from_slice(b"{2|4:have,7:core1.0,}");
                    }
                    M::In(_) => {
                        w.send(k, b"\n");
                        modes[k] = M::Dead;
                    }
                    M::Out(_) => w.send(k, b"{2|4:want,5:core1,}"),
                    M::None | M::Dead => {}
                }
            }
            R::Close(k) if !modes.is_empty() => {
                let k = *k as usize % modes.len();
                w.close(k);
                modes[k] = M::Dead;
            }
            R::Input(_) | R::Close(_) => {}
        }
        w.settle();
        // what each client has seen so far, and nothing else
        for (k, m) in modes.iter().enumerate() {
            let c = &w.clients[k];
            if c.stream.is_none() {
                continue;
            }
            ensure!(
                if *m == M::Dead { want[k].starts_with(&c.got) } else { c.got == want[k] },
                "step {} ({:?}): client {} ({:?}) has received {:?}, expected {:?}",
                n,
                op,
                k,
                m,
                B(c.got.clone()),
                B(want[k].clone())
            );
            ensure_eq!(c.eof, *m == M::Dead, "step {} ({:?}): end of the stream of client {} ({:?})", n, op, k, m);
        }
        for e in w.app.take_log() {
            if let Ev::Bad(e) = e {
                return Err(at(e));
            }
        }
    }
    o.nontrivial_if(both);
    o.class_if(both, "one screen's client was served, another's was not");
    Ok(())
}

pub fn c31(s: &mut Suite) {
    s.sub(
        "answers",
        (120_000, 4_000_000),
        "a stdin connection that is asked for its own screen and for others",
        (vec((0u8..5, name()), 1..8), vec((name(), any::<u8>()), 1..6)).prop_map(|(states, asked)| Asked { states, asked }),
        c31_answers,
    );
    let data = || vec(any::<u8>(), 1..40).prop_map(B);
    let op = one_of![
        4 => (0u8..4, 0u8..8).prop_map(|(k, i)| R::Join(k, i)),
        4 => (0u8..8).prop_map(|i| R::Join(1, i)),
        2 => (name(), any::<u8>(), data()).prop_map(|(n, h, d)| R::Feed(n, h, d)),
        4 => (any::<u8>(), one_of![Just(0u8), any::<u8>()], data()).prop_map(|(i, h, d)| R::FeedOwn(i, h, d)),
        2 => data().prop_map(R::FeedAll),
        2 => data().prop_map(R::Tell),
        1 => any::<u8>().prop_map(R::Input),
        1 => any::<u8>().prop_map(R::Close),
    ];
    s.sub(
        "routes",
        (4_000, 150_000),
        "text for one screen while clients of it and of others are connected",
        (vec(name(), 2..6), vec(op, 4..24)).prop_map(|(screens, ops)| Routes { screens, ops }),
        c31_routes,
    );
}
