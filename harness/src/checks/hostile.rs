//! C26: hostile clients.

use crate::checks::delivery::{differ, join, pattern, pool_setup, Multi};
use crate::fw::*;
use crate::gen::*;
use crate::refmodel::*;
use crate::srv::*;
use crate::tok::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::os::unix::net::UnixStream;
use vt6::server::ReceiveBuffer;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum H {
    /// so many copies of this
    Repeat(B, u32),
    /// a message with an argument of this size
    LongArg(String, u32),
    /// a message with so many arguments
    ManyArgs(String, u32, B),
    /// message whose reply is about this long
    LongReply(u8, u16),
    M(Msg),
    Raw(B),
    /// the beginning of the next complete message, only
    Cut(B),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Attack {
    /// 0..2: handshake completed for messages, stdin, stdout; 3: no handshake
    pub mode: u8,
    pub parts: Vec<H>,
    /// sizes of the segments, used cyclically (empty: all at once)
    pub seg: Vec<u16>,
}

pub fn bytes_of(h: &H) -> Vec<u8> {
    match h {
        H::Repeat(b, n) => b.0.repeat(*n as usize),
        H::LongArg(t, n) => ref_format(&[t.as_bytes(), &pattern(3, *n as usize)[..]]),
        H::ManyArgs(t, n, a) => {
            let mut v: Vec<&[u8]> = vec![t.as_bytes()];
            v.extend((0..*n).map(|_| &a.0[..]));
            ref_format(&v)
        }
        H::LongReply(k, n) => {
            let name = "m".repeat(*n as usize);
            match k % 5 {
                0 => ref_format(&[b"want", format!("{}1", name).as_bytes()]),
                1 => ref_format(&[format!("{}9.x", name).as_bytes()]),
                2 => ref_format(&[b"test1.echo", name.as_bytes()]),
                3 => ref_format(&[b"test1.echo-twice", name.as_bytes()]),
                _ => ref_format(&[b"test1.echo-die", name.as_bytes()]),
            }
        }
        H::M(m) => m.wire(),
        H::Raw(b) | H::Cut(b) => b.0.clone(),
    }
}

/// A receive buffer that is cheap to take small messages from, and counts accesses.
struct BigBuf {
    data: Vec<u8>,
    pos: usize,
    calls: std::cell::Cell<u64>,
    budget: u64,
    bad: bool,
}
impl ReceiveBuffer for BigBuf {
    fn contents(&self) -> &[u8] {
        self.calls.set(self.calls.get() + 1);
        if self.calls.get() > self.budget {
            panic!("receive buffer accessed {} times for {} bytes: no progress", self.calls.get(), self.data.len());
        }
        &self.data[self.pos..]
    }
    fn discard(&mut self, len: usize) {
        if len > self.data.len() - self.pos {
            self.bad = true;
            self.pos = self.data.len();
        } else {
            self.pos += len;
        }
    }
}

fn memory_case(a: &Attack, obs: &mut Obs) -> Res {
    let setup = pool_setup();
    let d = MockWorld::new(&setup).dispatch();
    let app = vt6::server::Dispatch::application(&d).clone();
    let mut conn = MConn::new(d.clone(), 0);
    let mut buf = BigBuf { data: vec![], pos: 0, calls: Default::default(), budget: 0, bad: false };
    let mut total = 0;
    let mut stream = vec![];
    if a.mode % 4 < 3 {
        let k = a.mode as usize % 4;
        stream.extend_from_slice(&ref_format(&[HELLOS[k].as_bytes(), format!("{}0", ["mk", "ik", "ok"][k]).as_bytes()]));
    }
    for p in &a.parts {
        stream.extend_from_slice(&bytes_of(p));
    }
    total += stream.len();
    let mut rest = &stream[..];
    let mut n = 0;
    while !rest.is_empty() {
        let mut k = if a.seg.is_empty() { rest.len() } else { a.seg[n % a.seg.len()] as usize };
        // at most 64 segments: every segment may be parsed anew as long as the message is incomplete
        if n >= 64 {
            k = rest.len();
        }
        let k = k.clamp(1, rest.len());
        n += 1;
        buf.data.drain(..buf.pos);
        buf.pos = 0;
        buf.data.extend_from_slice(&rest[..k]);
        rest = &rest[k..];
        buf.calls.set(0);
        buf.budget = 200 + 40 * buf.data.len() as u64;
        conn.handle_incoming(&mut buf);
        ensure!(!buf.bad, "more bytes discarded than there are in the buffer");
        app.take_log();
    }
    obs.class_if(total > 100_000, "more than 100 KB");
    obs.nontrivial_if(total > 2_000);
    Ok(())
}

/// The same message over and over: the replies have to be the reply to one of them, over and over.
fn linear_case(c: &(B, u32), obs: &mut Obs) -> Res {
    let setup = pool_setup();
    let hello = ref_format(&[b"posix1.client-hello", b"mk0"]);
    let run = |n: usize| -> Result<(usize, String), String> {
        let d = MockWorld::new(&setup).dispatch();
        let app = vt6::server::Dispatch::application(&d).clone();
        let mut conn = MConn::new(d.clone(), 0);
        let mut data = hello.clone();
        data.extend_from_slice(&c.0 .0.repeat(n));
        let budget = 200 + 40 * data.len() as u64;
        let mut buf = BigBuf { data, pos: 0, calls: Default::default(), budget, bad: false };
        conn.handle_incoming(&mut buf);
        ensure!(!buf.bad, "more bytes discarded than there are in the buffer");
        app.take_log();
        Ok((d.sent(0).len(), describe_state(conn.state())))
    };
    let zero = run(0)?.0;
    let (one, st1) = run(1)?;
    let (two, st2) = run(2)?;
    let (many, st) = run(c.1 as usize)?;
    if st1.starts_with("Msgio") && st2.starts_with("Msgio") && two - one == one - zero {
        ensure_eq!(st, st2, "state after {} times {:?}", c.1, c.0);
        ensure_eq!(many - zero, (one - zero) * c.1 as usize, "bytes sent in reply to {} times {:?}", c.1, c.0);
        obs.class_if(one > zero, "replies");
    } else {
        obs.class("not periodic");
    }
    obs.class_if(c.1 > 20_000, "many");
    obs.nontrivial_if(c.1 > 500);
    Ok(())
}

fn tokio_case(a: &Attack, obs: &mut Obs) -> Res {
    let mut w = TokioWorld::new(&pool_setup());
    let r = (|| {
        let by = join(&mut w, 0)?;
        let evil = if a.mode % 4 < 3 { join(&mut w, a.mode as usize % 4)? } else { w.connect()? };
        let mut total = 0;
        let mut seq = 0;
        let mut serve = |w: &mut TokioWorld, what: &str| -> Res {
            seq += 1;
            let before = w.clients[by].got.len();
            let body = pattern(seq, 30);
            let want = ref_format(&[b"test1.echoed", &body[..]]);
            w.send(by, &ref_format(&[b"test1.echo", &body[..]]));
            w.settle();
            let got = &w.clients[by].got[before..];
            ensure!(got == &want[..], "while {}, the other connection is not served: {}", what, differ(got, &want));
            Ok(())
        };
        for (n, p) in a.parts.iter().enumerate() {
            let bytes = bytes_of(p);
            total += bytes.len();
            let seg = if a.seg.is_empty() { 0 } else { a.seg[n % a.seg.len()] as usize };
            if seg == 0 || bytes.len() / seg.max(1) > 60 {
                w.send(evil, &bytes);
                w.nudge(seg % 7);
            } else {
                for c in bytes.chunks(seg) {
                    w.send(evil, c);
                    w.clients[evil].pump();
                    w.nudge(3);
                }
            }
            if n % 2 == 0 {
                serve(&mut w, "a client attacks")?;
            } else {
                w.settle();
            }
            w.app.take_log();
        }
        serve(&mut w, "a client attacked")?;
        let third = join(&mut w, 0)?;
        w.send(third, &ref_format(&[b"test1.echo", b"hello"]));
        w.settle();
        let want = ref_format(&[b"test1.echoed", b"hello"]);
        ensure!(w.clients[third].got == want, "a new connection is not served: {}", differ(&w.clients[third].got, &want));
        obs.class_if(w.clients[evil].eof, "attacker disconnected");
        obs.class_if(total > 100_000, "more than 100 KB");
        obs.nontrivial_if(total > 1_500);
        Ok(())
    })();
    w.finish();
    r
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Siege {
    pub workers: u8,
    pub attackers: Vec<Attack>,
    pub echoes: u16,
}
fn siege_case(s: &Siege, obs: &mut Obs) -> Res {
    let m = Multi::new(s.workers as usize, &pool_setup());
    let r = siege_inner(&m, s);
    m.finish();
    obs.nontrivial_if(s.attackers.len() > 1);
    r
}
fn echo(sock: &mut UnixStream, k: u64) -> Res {
    let body = pattern(k, 100);
    sock.write_all(&ref_format(&[b"test1.echo", &body[..]])).map_err(|e| e.to_string())?;
    let want = ref_format(&[b"test1.echoed", &body[..]]);
    let mut got = vec![0; want.len()];
    sock.read_exact(&mut got).map_err(|e| e.to_string())?;
    ensure!(got == want, "{}", differ(&got, &want));
    Ok(())
}
fn siege_inner(m: &Multi, s: &Siege) -> Res {
    let mut by = m.join(0, 0)?;
    let mut threads = vec![];
    for (i, a) in s.attackers.iter().enumerate() {
        let mut sock = m.join_any(a.mode as usize % 4, i + 1)?;
        let a = a.clone();
        threads.push(std::thread::spawn(move || {
            let mut rd = sock.try_clone().unwrap();
            let reader = std::thread::spawn(move || {
                let mut b = [0u8; 65536];
                while matches!(rd.read(&mut b), Ok(n) if n > 0) {}
            });
            'all: for p in &a.parts {
                let bytes = bytes_of(p);
                let seg = a.seg.first().copied().unwrap_or(60_000).max(200) as usize;
                for c in bytes.chunks(seg) {
                    if sock.write_all(c).is_err() {
                        break 'all;
                    }
                }
            }
            let _ = sock.shutdown(std::net::Shutdown::Both);
            let _ = reader.join();
        }));
    }
    for k in 0..s.echoes {
        echo(&mut by, k as u64).map_err(|e| format!("the other connection is not served: {}", e))?;
    }
    for t in threads {
        t.join().map_err(|_| "attacker thread panicked".to_string())?;
    }
    echo(&mut by, 7).map_err(|e| format!("the other connection is not served afterwards: {}", e))?;
    let mut new = m.join(0, 15)?;
    echo(&mut new, 8).map_err(|e| format!("a new connection is not served: {}", e))
}

fn unit() -> BoxedStrategy<B> {
    one_of![
        8 => select(vec![
            &b"{"[..], b"{{", b"{}", b"}", b"\n", b"\0", b"{0|}", b"{1|", b"{1|4:want,}", b"{2|4:want,5:core1,}", b"{1|4:nope,}",
            b"{1|12:test1.silent,}", b"{1|10:test1.echo,}", b"{1|6:core1.,}", b"{2|17:core1.client-make,1:x,}", b"{1|7:foo1.ba,}x",
            b"{1|12:test1.invalid,}", b"{1|13:test1.invalid,}", b"{9", b"{1|99999999999999999999:", b"{18446744073709551615|",
            b"{1|18446744073709551615:", b"{1|18446744073709551614:x", b"{9223372036854775808|1:a,", b"{2|4:have,0:,}",
            b"{1|9:test1.die,}", b"{1|17:test1.die-invalid,}", b"{1|17:test1.die-unknown,}", b"{1|22:test1.to-stdin-invalid,}", b"\xff", b"{00|", b"{1|04:want,}",
        ]).prop_map(|b| B(b.to_vec())),
        3 => msg(3).prop_map(|m| B(m.wire())),
        2 => wire_soup(1..10).prop_map(B),
        1 => vec(any::<u8>(), 1..8).prop_map(B),
    ]
    .boxed()
}
fn count(max: u32) -> BoxedStrategy<u32> {
    one_of![4 => 1u32..60, 3 => 60u32..3000, 1 => (max / 4)..max].boxed()
}
fn mtype() -> BoxedStrategy<String> {
    select(vec!["want", "test1.silent", "test1.echo", "core1.client-make", "posix1.client-hello", "foo1.bar", "nope", "test1.invalid", "bad"])
        .prop_map(String::from)
        .boxed()
}
fn part(many: u32, long: u32, args: u32) -> BoxedStrategy<H> {
    one_of![
        6 => (unit(), count(many)).prop_map(|(b, n)| H::Repeat(b, n)),
        3 => (mtype(), one_of![900u32..1100, 1u32..5000, 5000u32..long]).prop_map(|(t, n)| H::LongArg(t, n)),
        2 => (mtype(), one_of![200u32..300, 1u32..args], vec(any::<u8>(), 0..3)).prop_map(|(t, n, b)| H::ManyArgs(t, n, B(b))),
        3 => (0u8..5, one_of![980u16..1030, 1u16..2000]).prop_map(|(k, n)| H::LongReply(k, n)),
        2 => msg(4).prop_map(H::M),
        2 => one_of![wire_soup(1..30), vec(any::<u8>(), 1..200)].prop_map(|v| H::Raw(B(v))),
        1 => (mtype(), 1000u32..40_000, 0.1f64..1.0).prop_map(|(t, n, f)| {
            let v = bytes_of(&H::LongArg(t, n));
            let k = (v.len() as f64 * f) as usize;
            H::Cut(B(v[..k].to_vec()))
        }),
    ]
    .boxed()
}
fn attack(many: u32, long: u32, args: u32, parts: usize) -> BoxedStrategy<Attack> {
    let mode = one_of![6 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8), 2 => Just(3u8)];
    (mode, vec(part(many, long, args), 1..parts), vec(one_of![1u16..20, 900u16..1200, 1u16..20_000], 0..4))
        .prop_map(|(mode, parts, seg)| Attack { mode, parts, seg })
        .boxed()
}

pub fn c26(s: &mut Suite) {
    s.sub("memory", (12_000, 400_000), "more than 2000 bytes", attack(200_000, 200_000, 8000, 5), memory_case);
    s.raw(
        "stream_bytes",
        "any; the first byte is the kind of connection, the second the size of the segments",
        (any::<u8>(), any::<u8>(), vec(unit(), 1..6)).prop_map(|(m, n, u)| [&[m, n][..], &u.iter().map(|u| &u.0[..]).collect::<Vec<_>>().concat()].concat()).boxed(),
        |d| {
            let (mode, seg) = (*d.first().unwrap_or(&0), *d.get(1).unwrap_or(&0));
            Attack { mode: mode % 4, parts: vec![H::Raw(B(d.get(2..).unwrap_or(&[]).to_vec()))], seg: if seg % 2 == 0 { vec![] } else { vec![seg as u16] } }
        },
        memory_case,
    );
    s.sub("periodic", (3_000, 100_000), "more than 500 repetitions", (unit(), count(150_000)), linear_case);
    s.sub("tokio", (1_600, 60_000), "more than 1500 bytes", attack(8_000, 120_000, 2000, 6), tokio_case);
    let siege = (1u8..5, vec(attack(4_000, 100_000, 1000, 4), 1..5), 1u16..40)
        .prop_map(|(workers, attackers, echoes)| Siege { workers, attackers, echoes });
    s.sub("siege", (400, 12_000), "several attackers at once", siege, siege_case);
}
