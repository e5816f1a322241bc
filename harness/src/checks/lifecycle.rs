//! C24: connection lifecycles, C25: shutdown and startup, on the Tokio server.

use crate::checks::delivery::{differ, join, pattern, pool_setup, Multi};
use crate::fw::*;
use crate::refmodel::*;
use crate::srv::*;
use crate::tok::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::io::{Read, Write};
use std::net::Shutdown;
use std::os::unix::fs::{FileTypeExt, MetadataExt};
use std::os::unix::net::{UnixListener, UnixStream};
use std::path::Path;
use std::sync::{Arc, Condvar, Mutex};
use vt6::server::tokio::Dispatch as TD;
use vt6::server::{ConnectionState, Dispatch, Notification};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum L {
    /// 0: messages, 1: stdin, 2: stdout, 3: stays in the handshake
    Connect(u8),
    /// connects and leaves before the server can notice
    Visit,
    Close(u8),
    /// the client shuts down its sending direction
    HalfClose(u8),
    /// the client shuts down its receiving direction, and the server sends something
    Deaf(u8),
    /// a broadcast tears the connection down
    Kill(u8),
    /// one broadcast tears several connections down
    KillMany(u16),
    /// one broadcast tears all connections down
    KillAll,
    /// a message handler tears the connection down
    Die(u8),
    /// a message handler answers, then tears the connection down
    EchoDie(u8),
    Garbage(u8),
    /// the client sends the beginning of a message
    Partial(u8, u8),
    /// the server queues so many kilobytes for the connection
    Flood(u8, u16),
    Pause(u8),
    Resume(u8),
    Nudge(u8),
}

fn l_op() -> BoxedStrategy<L> {
    one_of![
        6 => one_of![3 => Just(0u8), 2 => 1u8..4].prop_map(L::Connect),
        1 => Just(L::Visit),
        3 => (0u8..8).prop_map(L::Close),
        2 => (0u8..8).prop_map(L::HalfClose),
        1 => (0u8..8).prop_map(L::Deaf),
        3 => (0u8..8).prop_map(L::Kill),
        2 => any::<u16>().prop_map(L::KillMany),
        1 => Just(L::KillAll),
        1 => (0u8..8).prop_map(L::Die),
        1 => (0u8..8).prop_map(L::EchoDie),
        2 => (0u8..8).prop_map(L::Garbage),
        2 => (0u8..8, any::<u8>()).prop_map(|(c, k)| L::Partial(c, k)),
        2 => (0u8..8, one_of![3 => 1u16..40, 1 => 250u16..500]).prop_map(|(c, k)| L::Flood(c, k)),
        2 => (0u8..8).prop_map(L::Pause),
        1 => (0u8..8).prop_map(L::Resume),
        2 => (0u8..8).prop_map(L::Nudge),
    ]
    .boxed()
}

struct Cl {
    kind: u8,
    /// certainly torn down once the server comes to rest
    dead: bool,
    id: Option<u64>,
    deaf: bool,
    /// what is missing from the message that it has begun to send
    rest: Vec<u8>,
}

struct Life {
    cl: Vec<Cl>,
    connects: usize,
    opened: usize,
    closed: usize,
    gone: BTreeSet<u64>,
    open: BTreeSet<u64>,
}

impl Life {
    fn new() -> Life {
        Life { cl: vec![], connects: 0, opened: 0, closed: 0, gone: Default::default(), open: Default::default() }
    }

    fn apply(&mut self, w: &mut TokioWorld, op: &L) -> Res {
        let n = self.cl.len();
        let pick = |c: &u8| if n == 0 { None } else { Some(*c as usize % n) };
        match op {
            L::Connect(k) => {
                if n >= 12 {
                    return Ok(());
                }
                let s = UnixStream::connect(&w.path).map_err(|e| format!("cannot connect: {}", e))?;
                self.connects += 1;
                w.clients.push(Client::new(s));
                if *k < 3 {
                    let sec = format!("{}{}", ["mk", "ik", "ok"][*k as usize], n);
                    w.send(n, &ref_format(&[HELLOS[*k as usize].as_bytes(), sec.as_bytes()]));
                    w.clients[n].pump();
                }
                self.cl.push(Cl { kind: *k, dead: false, id: None, deaf: false, rest: vec![] });
            }
            L::Visit => {
                drop(UnixStream::connect(&w.path).map_err(|e| format!("cannot connect: {}", e))?);
                self.connects += 1;
            }
            L::Close(c) => {
                if let Some(i) = pick(c) {
                    w.close(i);
                    self.cl[i].dead = true;
                }
            }
            L::HalfClose(c) => {
                if let Some(i) = pick(c) {
                    if let Some(s) = &w.clients[i].stream {
                        let _ = s.shutdown(Shutdown::Write);
                        self.cl[i].dead = true;
                    }
                }
            }
            L::Deaf(c) => {
                if let Some(i) = pick(c) {
                    if let (Some(s), Some(id)) = (&w.clients[i].stream, self.cl[i].id) {
                        if self.cl[i].kind < 2 && !self.cl[i].dead {
                            let _ = s.shutdown(Shutdown::Read);
                            // what was sent before can still be read, and has to be, or the server cannot notice
                            self.cl[i].deaf = true;
                            w.clients[i].paused = false;
                            self.cl[i].dead = true;
                            queue_for(w, id, 100);
                        }
                    }
                }
            }
            L::Kill(c) => {
                if let Some(i) = pick(c) {
                    if let Some(id) = self.cl[i].id {
                        self.cl[i].dead = true;
                        w.broadcast(move |conn| {
                            if conn.id() == id {
                                conn.set_state(ConnectionState::Teardown)
                            }
                        });
                    }
                }
            }
            L::KillMany(mask) => {
                let mut ids = vec![];
                for (i, c) in self.cl.iter_mut().enumerate() {
                    if let (Some(id), true) = (c.id, mask & 1 << i != 0) {
                        c.dead = true;
                        ids.push(id);
                    }
                }
                w.broadcast(move |conn| {
                    if ids.contains(&conn.id()) {
                        conn.set_state(ConnectionState::Teardown)
                    }
                });
            }
            L::KillAll => {
                // those that are still waiting to be accepted would be missed
                w.settle();
                for c in self.cl.iter_mut() {
                    c.dead = true;
                }
                w.broadcast(|conn| conn.set_state(ConnectionState::Teardown));
            }
            L::Die(c) | L::EchoDie(c) => {
                if let Some(i) = pick(c) {
                    if self.cl[i].kind == 0 && w.clients[i].stream.is_some() && !self.cl[i].dead {
                        let t = if matches!(op, L::Die(_)) { "test1.die" } else { "test1.echo-die" };
                        self.finish(w, i);
                        w.send(i, &ref_format(&[t.as_bytes()]));
                        w.clients[i].pump();
                        self.cl[i].dead = true;
                    }
                }
            }
            L::Garbage(c) => {
                if let Some(i) = pick(c) {
                    if w.clients[i].stream.is_some() && !self.cl[i].dead {
                        self.finish(w, i);
                        w.send(i, b"garbage {}");
                        w.clients[i].pump();
                        // costs a connection in the handshake or in stdin mode its life, and the others nothing
                        if self.cl[i].kind == 3 || self.cl[i].kind == 1 {
                            self.cl[i].dead = true;
                        }
                    }
                }
            }
            L::Partial(c, k) => {
                if let Some(i) = pick(c) {
                    if w.clients[i].stream.is_some() && !self.cl[i].dead && self.cl[i].kind != 1 {
                        // (the rest of a message that ends a handshake gets the connection torn down)
                        if self.cl[i].kind == 3 && !self.cl[i].rest.is_empty() {
                            return Ok(());
                        }
                        self.finish(w, i);
                        let m = if self.cl[i].kind == 3 {
                            ref_format(&[b"posix1.client-hello", b"who knows"])
                        } else {
                            ref_format(&[b"test1.silent", &pattern(*k as u64, 10 * *k as usize)[..]])
                        };
                        let n = 1 + *k as usize * (m.len() - 2) / 255;
                        w.send(i, &m[..n]);
                        w.clients[i].pump();
                        self.cl[i].rest = m[n..].to_vec();
                    }
                }
            }
            L::Flood(c, kb) => {
                if let Some(i) = pick(c) {
                    if let Some(id) = self.cl[i].id {
                        queue_for(w, id, *kb as usize * 1024);
                    }
                }
            }
            L::Pause(c) => {
                if let Some(i) = pick(c) {
                    w.clients[i].paused = !self.cl[i].deaf
                }
            }
            L::Resume(c) => {
                if let Some(i) = pick(c) {
                    w.clients[i].paused = false
                }
            }
            L::Nudge(k) => {
                for c in w.clients.iter_mut() {
                    c.pump();
                }
                w.nudge(*k as usize)
            }
        }
        Ok(())
    }

    /// Sends the rest of the message that a client has begun.
    fn finish(&mut self, w: &mut TokioWorld, i: usize) {
        let rest = std::mem::take(&mut self.cl[i].rest);
        w.send(i, &rest);
    }

    /// To be called when the server has come to rest.
    fn check(&mut self, w: &mut TokioWorld) -> Res {
        for e in w.app.take_log() {
            match e {
                Ev::Opened => self.opened += 1,
                Ev::Closed => self.closed += 1,
                _ => {}
            }
        }
        ensure_eq!(self.opened, self.connects, "number of connections announced as opened");
        // (before the probe, which might be what wakes up the server)
        for (i, c) in self.cl.iter().enumerate() {
            let s = &w.clients[i];
            if s.stream.is_some() {
                ensure!(s.hung_up() == c.dead, "the server {} its end of connection {}", if c.dead { "has not closed" } else { "has closed" }, i);
            }
        }
        let p = w.probe()?;
        ensure!(w.app.take_log().is_empty(), "running a broadcast on idle connections changed something");
        let now: BTreeSet<u64> = p.keys().copied().collect();
        for id in now.difference(&self.open) {
            ensure!(!self.gone.contains(id), "connection ID {} is used again", id);
        }
        let left: Vec<u64> = self.open.difference(&now).copied().collect();
        self.gone.extend(left);
        self.open = now;
        // who is who
        for (id, st) in &p {
            for (i, c) in self.cl.iter_mut().enumerate() {
                let me = match c.kind {
                    0 => format!("Msgio c{:02}[", i),
                    1 => format!("Stdin s{:02}", i),
                    2 => format!("Stdout s{:02}", i),
                    _ => continue,
                };
                if st.starts_with(&me) {
                    ensure!(c.id.is_none() || c.id == Some(*id), "connection {} changed its ID from {:?} to {}", i, c.id, id);
                    c.id = Some(*id);
                }
            }
            // the others need no names: their number has to be right
        }
        let alive = self.cl.iter().filter(|c| !c.dead).count();
        ensure_eq!(p.len(), alive, "number of connections visited by a broadcast ({:?})", p);
        ensure_eq!(self.closed, self.connects - alive, "number of connections announced as closed");
        for (i, c) in self.cl.iter().enumerate() {
            if c.kind < 3 && !c.dead {
                ensure!(c.id.map_or(false, |id| p.contains_key(&id)), "connection of client {} is gone ({:?})", i, p);
            }
            if let Some(id) = c.id {
                ensure!(!c.dead || !p.contains_key(&id), "a broadcast visited connection {} after its end", id);
            }
            let s = &w.clients[i];
            if s.stream.is_some() && !s.paused && !c.deaf {
                ensure!(s.eof == c.dead, "client {} {} the end of its stream", i, if c.dead { "does not see" } else { "sees" });
            }
        }
        Ok(())
    }

    /// Everyone who should be able to is still served.
    fn serve(&mut self, w: &mut TokioWorld, tag: u64) -> Res {
        for i in 0..self.cl.len() {
            if self.cl[i].kind != 0 || self.cl[i].dead || w.clients[i].paused {
                continue;
            }
            let before = w.clients[i].got.len();
            let body = pattern(tag * 100 + i as u64, 50);
            self.finish(w, i);
            w.send(i, &ref_format(&[b"test1.echo", &body[..]]));
            w.settle();
            let got = &w.clients[i].got[before..];
            let want = ref_format(&[b"test1.echoed", &body[..]]);
            ensure!(got == &want[..], "client {} is not served: {}", i, differ(got, &want));
            break;
        }
        w.app.take_log();
        Ok(())
    }
}

fn queue_for(w: &TokioWorld, id: u64, bytes: usize) {
    w.broadcast(move |conn| {
        if conn.id() != id {
            return;
        }
        let p = pattern(7, bytes);
        match conn.state() {
            ConnectionState::Msgio(_) => {
                for c in p.chunks(900) {
                    conn.enqueue_message(&Items("test1.data", vec![c]));
                }
            }
            ConnectionState::Stdin(_) => {
                let d = conn.dispatch();
                d.enqueue_stdin(conn, &p)
            }
            _ => {}
        }
    });
}

fn c24_case(groups: &Vec<Vec<L>>, obs: &mut Obs) -> Res {
    let mut w = TokioWorld::new(&pool_setup());
    let mut life = Life::new();
    let r = (|| {
        for (no, g) in groups.iter().enumerate() {
            let at = |e: String| format!("group {}: {}", no, e);
            for op in g {
                life.apply(&mut w, op).map_err(at)?;
            }
            w.settle();
            life.check(&mut w).map_err(at)?;
            life.serve(&mut w, no as u64).map_err(at)?;
        }
        for c in w.clients.iter_mut() {
            c.paused = false;
        }
        w.settle();
        life.check(&mut w)?;
        life.serve(&mut w, 1000)?;
        // a newcomer is served as well
        let n = life.cl.len();
        life.apply(&mut w, &L::Connect(0))?;
        w.settle();
        life.check(&mut w)?;
        if life.cl.len() > n {
            life.serve(&mut w, 2000)?;
        }
        // and in the end everyone leaves
        for i in 0..life.cl.len() {
            life.apply(&mut w, &L::Close(i as u8))?;
        }
        w.settle();
        life.check(&mut w)
    })();
    w.finish();
    let dead = life.gone.len();
    obs.class_if(groups.iter().flatten().any(|o| matches!(o, L::Deaf(_))), "deaf client");
    obs.class_if(groups.iter().flatten().any(|o| matches!(o, L::Kill(_) | L::KillMany(_) | L::KillAll | L::Die(_))), "server closes");
    obs.class_if(groups.iter().flatten().any(|o| matches!(o, L::Flood(_, k) if *k >= 250)), "flood");
    obs.nontrivial_if(dead >= 2 && life.connects >= 3);
    r
}

// ---- several threads ----

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Stress {
    pub workers: u8,
    /// per thread: what its connections do, one after the other (0: nothing, 1: echo, 2: garbage, 3: half-close,
    /// 4: wait to be killed, 5: leave with unread data, 6: leave in the middle of a message)
    pub threads: Vec<Vec<u8>>,
}
fn stress_case(s: &Stress, obs: &mut Obs) -> Res {
    let setup = Setup {
        clients: (0..400).map(|i| ClientSpec { id: format!("c{}", i), scr: Default::default(), secret: format!("mk{}", i) }).collect(),
        screens: vec![],
    };
    let m = Multi::new(s.workers as usize, &setup);
    let r = stress_inner(&m, s);
    m.finish();
    obs.nontrivial_if(s.threads.len() > 1 && s.workers > 1);
    r
}
fn stress_inner(m: &Multi, s: &Stress) -> Res {
    let counts: Arc<(Mutex<(usize, usize)>, Condvar)> = Default::default();
    let c2 = counts.clone();
    let early = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let e2 = early.clone();
    *m.app.0.hook.lock().unwrap() = Some(Arc::new(move |_, n| {
        let mut c = c2.0.lock().unwrap();
        match n {
            Notification::ConnectionOpened => c.0 += 1,
            Notification::ConnectionClosed => c.1 += 1,
            _ => {}
        }
        if c.1 > c.0 {
            e2.store(true, std::sync::atomic::Ordering::SeqCst);
        }
        c2.1.notify_all();
    }));
    // test1.hook: the connections of this client get killed by a broadcast
    let d = m.d.clone();
    *m.app.0.cmd.lock().unwrap() = Some(Arc::new(move |args: &[B]| {
        let id = String::from_utf8_lossy(&args[0]).to_string();
        d.enqueue_broadcast(Box::new(move |conn| {
            let mine = matches!(conn.state(), ConnectionState::Msgio(c) if vt6::server::MessageConnector::identity(c).client_id().as_str() == id);
            if mine {
                conn.set_state(ConnectionState::Teardown)
            }
        }));
    }));
    let bystander = m_join(m, 399)?;
    let mut threads = vec![];
    let mut total = 1;
    for (t, acts) in s.threads.iter().enumerate() {
        total += acts.len();
        let (acts, path) = (acts.clone(), m.path.clone());
        threads.push(std::thread::spawn(move || -> Res {
            for (k, a) in acts.iter().enumerate() {
                let no = t * 40 + k;
                let mut sock = UnixStream::connect(&path).map_err(|e| format!("cannot connect: {}", e))?;
                if *a == 0 {
                    continue;
                }
                let io = |e: std::io::Error| format!("thread {} connection {} (kind {}): {}", t, k, a, e);
                hello(&mut sock, no).map_err(|e| format!("thread {} connection {} (kind {}): {}", t, k, a, e))?;
                let mut rest = vec![];
                match a {
                    1 | 2 => {
                        let body = pattern(no as u64, 300);
                        if *a == 2 {
                            sock.write_all(b"garbage {}\n").map_err(io)?;
                        }
                        sock.write_all(&ref_format(&[b"test1.echo", &body[..]])).map_err(io)?;
                        let want = ref_format(&[b"test1.echoed", &body[..]]);
                        let mut got = vec![0; want.len()];
                        sock.read_exact(&mut got).map_err(io)?;
                        ensure!(got == want, "client {}: {}", no, differ(&got, &want));
                    }
                    3 => {
                        sock.shutdown(Shutdown::Write).map_err(io)?;
                        let _ = sock.read_to_end(&mut rest);
                    }
                    4 => {
                        sock.write_all(&ref_format(&[b"test1.hook", format!("c{}", no).as_bytes()])).map_err(io)?;
                        let _ = sock.read_to_end(&mut rest);
                    }
                    6 => {
                        let m = ref_format(&[b"test1.echo", &pattern(no as u64, 300)[..]]);
                        sock.write_all(&m[..1 + no * 7 % (m.len() - 1)]).map_err(io)?;
                        if no % 2 == 0 {
                            sock.shutdown(Shutdown::Write).map_err(io)?;
                            let _ = sock.read_to_end(&mut rest);
                        }
                    }
                    _ => {
                        let body = pattern(no as u64, 300);
                        for _ in 0..20 {
                            let _ = sock.write_all(&ref_format(&[b"test1.echo", &body[..]]));
                        }
                    }
                }
                ensure!(rest.is_empty(), "client {} received {:?}", no, B(rest));
            }
            Ok(())
        }));
    }
    let mut err = Ok(());
    for t in threads {
        let r = t.join().unwrap_or(Err("client thread panicked".into()));
        err = err.and(r);
    }
    err?;
    {
        let mut c = counts.0.lock().unwrap();
        while c.0 < total || c.1 < total - 1 {
            c = counts.1.wait(c).unwrap();
        }
    }
    let mut sock = bystander;
    let body = pattern(5, 300);
    sock.write_all(&ref_format(&[b"test1.echo", &body[..]])).map_err(|e| e.to_string())?;
    let want = ref_format(&[b"test1.echoed", &body[..]]);
    let mut got = vec![0; want.len()];
    sock.read_exact(&mut got).map_err(|e| format!("the bystander is not served any more: {}", e))?;
    ensure!(got == want, "bystander: {}", differ(&got, &want));
    let ids: Arc<(Mutex<Vec<u64>>, Condvar)> = Default::default();
    let i2 = ids.clone();
    {
        let _g = m.rt.handle().enter();
        m.d.enqueue_broadcast(Box::new(move |conn| {
            i2.0.lock().unwrap().push(conn.id());
            i2.1.notify_all();
        }));
    }
    let mut v = ids.0.lock().unwrap();
    while v.is_empty() {
        v = ids.1.wait(v).unwrap();
    }
    ensure!(v.len() == 1, "only one connection is left, but a broadcast visits {:?}", v);
    drop(v);
    ensure!(!early.load(std::sync::atomic::Ordering::SeqCst), "a connection was announced as closed before it was announced as opened");
    let c = counts.0.lock().unwrap();
    ensure!(*c == (total, total - 1), "{} connections, {} announced as opened, {} as closed (one is still open)", total, c.0, c.1);
    Ok(())
}
fn hello(sock: &mut UnixStream, no: usize) -> Res {
    let io = |e: std::io::Error| format!("handshake: {}", e);
    sock.write_all(&ref_format(&[b"posix1.client-hello", format!("mk{}", no).as_bytes()])).map_err(io)?;
    let want = ref_format(&[b"posix1.server-hello", format!("c{}", no).as_bytes(), b"", b"", b""]);
    let mut got = vec![0; want.len()];
    sock.read_exact(&mut got).map_err(io)?;
    ensure!(got == want, "handshake: {}", differ(&got, &want));
    Ok(())
}
fn m_join(m: &Multi, no: usize) -> Result<UnixStream, String> {
    let mut s = loop {
        match UnixStream::connect(&m.path) {
            Ok(s) => break s,
            Err(e) if e.kind() == std::io::ErrorKind::ConnectionRefused => std::thread::sleep(std::time::Duration::from_millis(1)),
            Err(e) => return Err(format!("cannot connect: {}", e)),
        }
    };
    hello(&mut s, no)?;
    Ok(s)
}

// ---- one brief visit after the other ----

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Brief {
    pub workers: u8,
    /// what each visitor does (0: nothing, 1: sends garbage, 2: half a message, 3: hangs up its sending side first)
    pub visits: Vec<u8>,
}
fn brief_case(s: &Brief, obs: &mut Obs) -> Res {
    let m = Multi::new(s.workers as usize, &Setup { clients: vec![], screens: vec![] });
    let r = brief_inner(&m, s);
    m.finish();
    obs.nontrivial_if(s.workers > 1 && s.visits.len() > 3);
    r
}
fn brief_inner(m: &Multi, s: &Brief) -> Res {
    let log: Arc<(Mutex<Vec<bool>>, Condvar)> = Default::default();
    let l2 = log.clone();
    *m.app.0.hook.lock().unwrap() = Some(Arc::new(move |_, n| {
        let open = match n {
            Notification::ConnectionOpened => true,
            Notification::ConnectionClosed => false,
            _ => return,
        };
        l2.0.lock().unwrap().push(open);
        l2.1.notify_all();
    }));
    for (k, a) in s.visits.iter().enumerate() {
        let mut sock = loop {
            match UnixStream::connect(&m.path) {
                Ok(s) => break s,
                Err(e) if e.kind() == std::io::ErrorKind::ConnectionRefused => std::thread::sleep(std::time::Duration::from_millis(1)),
                Err(e) => return Err(format!("cannot connect: {}", e)),
            }
        };
        let sent = match a {
            1 => sock.write_all(b"garbage"),
            2 => sock.write_all(b"{2|19:posix1.cl"),
            3 => sock.shutdown(Shutdown::Write),
            _ => Ok(()),
        };
        sent.map_err(|e| format!("visit {}: {}", k, e))?;
        drop(sock);
        let mut l = log.0.lock().unwrap();
        while l.len() < 2 {
            l = log.1.wait(l).unwrap();
        }
        ensure!(*l == [true, false], "visit {} of {} (kind {}) was announced as {:?} (true: opened, false: closed)", k, s.visits.len(), a, *l);
        l.clear();
    }
    Ok(())
}

pub fn c24(s: &mut Suite) {
    crate::checks::resources::many(s);
    s.sub(
        "histories",
        (12_000, 500_000),
        "at least three connections, at least two of which end",
        vec(vec(l_op(), 1..6), 1..12),
        c24_case,
    );
    let st = (1u8..5, vec(vec(0u8..7, 1..20), 1..8)).prop_map(|(workers, threads)| Stress { workers, threads });
    s.sub("threads", (2_000, 60_000), "several client threads and several worker threads", st, stress_case);
    let st = (1u8..5, vec(0u8..4, 1..120)).prop_map(|(workers, visits)| Brief { workers, visits });
    s.sub("brief", (1_200, 60_000), "more than one worker thread and more than three visits", st, brief_case);
}

// ---------------------------------------------------------------------------------------------------------
// C25

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Down {
    pub groups: Vec<Vec<L>>,
    /// performed right before the shutdown, without the server getting a chance to notice
    pub unsettled: Vec<L>,
    /// 0: outside, 1: by a message handler, 2: by a broadcast, 3: when notified of the next event, 4: another thread
    pub how: u8,
    pub which: u8,
    pub twice: bool,
    /// the event loop is run again on the same dispatch object, so often
    #[serde(default)]
    pub reruns: u8,
}

/// Runs the event loop of the same dispatch once more.
fn rerun(w: &mut TokioWorld) -> Res {
    *w.app.0.hook.lock().unwrap() = None;
    *w.app.0.cmd.lock().unwrap() = None;
    let no = w.clients.len();
    if no >= 16 {
        return Ok(());
    }
    let d2 = w.d.clone();
    w.listener = Some(w.rt.spawn(async move { d2.run_listener().await }));
    w.settle();
    ensure!(!w.listener.as_ref().unwrap().is_finished(), "run_listener() ends immediately when it is called again");
    let s = UnixStream::connect(&w.path).map_err(|e| format!("cannot connect after run_listener() was called again: {}", e))?;
    w.clients.push(Client::new(s));
    let body = pattern(no as u64, 40);
    let mut v = ref_format(&[HELLOS[0].as_bytes(), format!("mk{}", no).as_bytes()]);
    v.extend(ref_format(&[b"test1.echo", &body[..]]));
    w.send(no, &v);
    w.settle();
    let mut want = ref_format(&[b"posix1.server-hello", format!("c{:02}", no).as_bytes(), b"", b"", b""]);
    want.extend(ref_format(&[b"test1.echoed", &body[..]]));
    ensure!(w.clients[no].got == want, "after run_listener() was called again: {}", differ(&w.clients[no].got, &want));
    let p = w.probe()?;
    ensure!(p.len() == 1, "there is one connection after run_listener() was called again, but a broadcast visits {:?}", p);
    w.shutdown()?;
    ensure!(std::fs::symlink_metadata(&w.path).is_err(), "the server socket is still there after the second shutdown");
    ensure!(w.clients[no].eof, "the client of the second run does not see the end of its stream");
    released(w)
}

fn c25_case(c: &Down, obs: &mut Obs) -> Res {
    let mut w = TokioWorld::new(&pool_setup());
    let path = w.path.clone();
    let mut r = c25_inner(&mut w, c, obs);
    for _ in 0..c.reruns {
        obs.class("run again");
        r = r.and_then(|_| rerun(&mut w));
    }
    // the next server uses the same path while the first one's leftovers are still around
    let r = r.and_then(|_| {
        obs.class("restarted");
        let mut w2 = TokioWorld::new_at(&pool_setup(), path.clone())?;
        let r = (|| {
            let i = join(&mut w2, 0)?;
            let body = pattern(1, 40);
            w2.send(i, &ref_format(&[b"test1.echo", &body[..]]));
            w2.settle();
            let want = ref_format(&[b"test1.echoed", &body[..]]);
            ensure!(w2.clients[i].got == want, "second server: {}", differ(&w2.clients[i].got, &want));
            w2.shutdown()?;
            ensure!(!path.exists(), "the socket of the second server is still there");
            Ok(())
        })();
        w2.finish();
        r
    });
    w.finish();
    r
}

/// After a shutdown: no connection is left, and every one that was announced as opened was announced as closed.
fn released(w: &mut TokioWorld) -> Res {
    let log = w.app.take_log();
    let opened = log.iter().filter(|e| matches!(e, Ev::Opened)).count();
    let closed = log.iter().filter(|e| matches!(e, Ev::Closed)).count();
    ensure!(opened == closed, "{} connections were announced as opened, but {} as closed after the shutdown", opened, closed);
    let p = w.probe()?;
    ensure!(p.is_empty(), "a broadcast visits connections after the shutdown: {:?}", p);
    Ok(())
}
fn c25_inner(w: &mut TokioWorld, c: &Down, obs: &mut Obs) -> Res {
    let mut life = Life::new();
    for g in &c.groups {
        for op in g {
            life.apply(w, op)?;
        }
        w.settle();
        for (id, st) in w.probe()? {
            for (i, c) in life.cl.iter_mut().enumerate() {
                let me = [format!("Msgio c{:02}[", i), format!("Stdin s{:02}", i)];
                if (c.kind < 2) && st.starts_with(&me[c.kind as usize]) {
                    c.id = Some(id);
                }
            }
        }
    }
    let victims: Vec<usize> =
        (0..life.cl.len()).filter(|&i| life.cl[i].kind == 0 && !life.cl[i].dead && w.clients[i].stream.is_some()).collect();
    let how = if c.how == 1 && victims.is_empty() { 0 } else { c.how };
    for op in &c.unsettled {
        life.apply(w, op)?;
    }
    let pending = w.clients.iter().any(|c| c.paused);
    let again = if c.twice { 2 } else { 1 };
    match how {
        1 => {
            let d = w.d.clone();
            let called = Arc::new(Mutex::new(false));
            let c2 = called.clone();
            *w.app.0.cmd.lock().unwrap() = Some(Arc::new(move |_| {
                *c2.lock().unwrap() = true;
                for _ in 0..again {
                    d.shutdown()
                }
            }));
            let i = victims[c.which as usize % victims.len()];
            w.send(i, &ref_format(&[b"test1.hook"]));
            w.clients[i].pump();
            obs.class("by a message handler");
            w.settle();
            if !*called.lock().unwrap() {
                // the message did not arrive, because something else ended the connection before
                w.d.shutdown();
            }
        }
        2 => {
            let d = w.d.clone();
            let n = Arc::new(Mutex::new(0));
            let n2 = n.clone();
            w.broadcast(move |_| {
                let mut n = n2.lock().unwrap();
                *n += 1;
                if *n <= again {
                    d.shutdown()
                }
            });
            obs.class("by a broadcast");
            w.settle();
            if *n.lock().unwrap() == 0 {
                // there was no connection to visit
                w.d.shutdown();
            }
        }
        3 => {
            let d = w.d.clone();
            *w.app.0.hook.lock().unwrap() = Some(Arc::new(move |_, _| d.shutdown()));
            let _ = life.apply(w, &L::Visit);
            obs.class("by a notification");
        }
        4 => {
            let d = w.d.clone();
            std::thread::spawn(move || d.shutdown()).join().map_err(|_| "shutdown() panicked".to_string())?;
            obs.class("by another thread");
        }
        _ => {
            for _ in 0..again {
                w.d.shutdown();
            }
            obs.class("from outside");
        }
    }
    w.settle();
    let listener = w.listener.take().unwrap();
    ensure!(listener.is_finished(), "run_listener() does not finish after shutdown()");
    match w.rt.block_on(listener) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return Err(format!("run_listener() ended with error {}", e)),
        Err(e) => return Err(format!("run_listener() panicked: {}", e)),
    }
    ensure!(std::fs::symlink_metadata(&w.path).is_err(), "the server socket is still there");
    ensure!(UnixStream::connect(&w.path).is_err(), "it is still possible to connect");
    // even one that does not read can see it
    for (i, cl) in w.clients.iter().enumerate() {
        ensure!(cl.stream.is_none() || cl.hung_up(), "the server has not closed its end of connection {} after the shutdown", i);
    }
    for c in w.clients.iter_mut() {
        c.paused = false;
        c.slow = 0;
    }
    w.settle();
    let mut waiting = 0;
    for (i, cl) in w.clients.iter().enumerate() {
        if cl.stream.is_some() {
            waiting += 1;
            ensure!(cl.eof, "client {} does not see the end of its stream after the shutdown", i);
        }
    }
    released(w)?;
    obs.class_if(pending && waiting > 0, "client not reading");
    obs.class_if(!c.unsettled.is_empty(), "something under way");
    obs.nontrivial_if(waiting >= 2);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Used {
    /// 0: file, 1: empty file, 2: directory, 3: live server, 4: stale socket, 5: link to a file, 6: dangling link,
    /// 7: named pipe, 8: socket of something else, listening
    pub kind: u8,
    pub contents: B,
    pub clients: u8,
}

fn look(p: &Path) -> Result<String, String> {
    let m = std::fs::symlink_metadata(p).map_err(|e| format!("path is gone: {}", e))?;
    let t = m.file_type();
    let more = if t.is_file() {
        format!("{:?}", B(std::fs::read(p).map_err(|e| e.to_string())?))
    } else if t.is_symlink() {
        format!("{:?} -> {:?}", std::fs::read_link(p), std::fs::read(p).map(B).map_err(|e| e.kind()))
    } else if t.is_dir() {
        let mut v: Vec<_> = std::fs::read_dir(p).map_err(|e| e.to_string())?.flatten().map(|e| e.file_name()).collect();
        v.sort();
        format!("{:?}", v)
    } else {
        format!("socket {} fifo {}", t.is_socket(), t.is_fifo())
    };
    Ok(format!("ino {} mode {:o} mtime {}.{} {}", m.ino(), m.mode(), m.mtime(), m.mtime_nsec(), more))
}

fn used_case(u: &Used, obs: &mut Obs) -> Res {
    let dir = scratch_dir().join("used");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join("sock");
    let target = dir.join("target");
    let mut live = None;
    let mut keep = None;
    match u.kind {
        0 => std::fs::write(&path, &u.contents.0).unwrap(),
        1 => std::fs::write(&path, b"").unwrap(),
        2 => {
            std::fs::create_dir(&path).unwrap();
            if !u.contents.is_empty() {
                std::fs::write(path.join("x"), &u.contents.0).unwrap();
            }
        }
        3 => live = Some(TokioWorld::new_at(&pool_setup(), path.clone())?),
        4 => drop(UnixListener::bind(&path).unwrap()),
        5 => {
            std::fs::write(&target, &u.contents.0).unwrap();
            std::os::unix::fs::symlink(&target, &path).unwrap();
        }
        6 => std::os::unix::fs::symlink(&target, &path).unwrap(),
        7 => {
            let c = std::ffi::CString::new(path.to_str().unwrap()).unwrap();
            assert_eq!(unsafe { libc::mkfifo(c.as_ptr(), 0o600) }, 0);
        }
        _ => keep = Some(UnixListener::bind(&path).unwrap()),
    }
    if let Some(w) = &mut live {
        for _ in 0..u.clients {
            join(w, 0)?;
        }
    }
    let before = look(&path)?;
    let app = TestApp::new(&pool_setup());
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
    let r = match TD::new(path.clone(), app.clone()) {
        Err(e) => Some(Err(e)),
        Ok(d) => rt.block_on(async {
            tokio::time::timeout(std::time::Duration::from_millis(50), async move { d.run_listener().await }).await.ok()
        }),
    };
    let res = (|| {
        match r {
            Some(Err(_)) => {}
            Some(Ok(())) => return Err("starting the server on a used path succeeded and ended at once".to_string()),
            None => return Err("the server was started on a path that is in use".into()),
        }
        let after = look(&path)?;
        ensure!(before == after, "the path was {} and is now {}", before, after);
        ensure!(u.kind != 6 || !target.exists(), "the target of the link was created");
        if let Some(w) = &mut live {
            let i = join(w, 0)?;
            for k in 0..=i {
                w.clients[k].got.clear();
                w.send(k, &ref_format(&[b"test1.echo", b"x"]));
            }
            w.settle();
            for k in 0..=i {
                ensure_eq!(B(w.clients[k].got.clone()), B(ref_format(&[b"test1.echoed", b"x"])), "the server in place, client {}", k);
            }
            obs.class("other server running");
        }
        Ok(())
    })();
    drop(keep);
    if let Some(w) = live {
        w.finish();
    }
    let _ = std::fs::remove_dir_all(&dir);
    obs.nontrivial = true;
    res
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DownStress {
    pub workers: u8,
    pub clients: u8,
    pub messages: u16,
    pub read: bool,
    pub spin: u32,
    pub connecting: bool,
}
fn down_stress(s: &DownStress, obs: &mut Obs) -> Res {
    let m = Multi::new(s.workers as usize, &pool_setup());
    let mut socks = vec![];
    for i in 0..s.clients as usize {
        socks.push(m.join(if i % 3 == 2 { 2 } else { 0 }, i)?);
    }
    let mut threads = vec![];
    for mut sock in socks {
        let mut rd = sock.try_clone().unwrap();
        let (n, read) = (s.messages as usize, s.read);
        threads.push(std::thread::spawn(move || {
            let m = ref_format(&[b"test1.echo", &pattern(3, 500)[..]]);
            for _ in 0..n {
                if sock.write_all(&m).is_err() {
                    break;
                }
            }
        }));
        threads.push(std::thread::spawn(move || {
            let mut buf = [0u8; 4096];
            if !read {
                std::thread::yield_now();
            }
            while matches!(rd.read(&mut buf), Ok(n) if n > 0) {}
        }));
    }
    if s.connecting {
        let path = m.path.clone();
        threads.push(std::thread::spawn(move || {
            // until the server is gone; everyone who got in has to see the end
            let mut v = vec![];
            for _ in 0..50 {
                match UnixStream::connect(&path) {
                    Ok(s) => v.push(s),
                    Err(_) => break,
                }
            }
            let mut b = [0u8; 10];
            for mut s in v {
                while matches!(s.read(&mut b), Ok(n) if n > 0) {}
            }
        }));
    }
    for _ in 0..s.spin {
        std::hint::spin_loop();
    }
    m.d.shutdown();
    let Multi { rt, d, app, path, listener } = m;
    let r = match rt.block_on(listener) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => Err(format!("run_listener() ended with error {}", e)),
        Err(e) => Err(format!("run_listener() panicked: {}", e)),
    };
    let r = r.and_then(|_| {
        ensure!(std::fs::symlink_metadata(&path).is_err(), "the server socket is still there");
        ensure!(UnixStream::connect(&path).is_err(), "it is still possible to connect");
        // every client sees the end of its stream; one that does not sleeps forever (which the monitor reports)
        for t in threads {
            t.join().map_err(|_| "client thread panicked".to_string())?;
        }
        Ok(())
    });
    let r = r.and_then(|_| {
        let visits = Arc::new(Mutex::new(0));
        let v2 = visits.clone();
        d.enqueue_broadcast(Box::new(move |_| *v2.lock().unwrap() += 1));
        // (a receiver that is just finishing may hold the connections, and will run it then)
        while Arc::strong_count(&visits) > 1 {
            std::thread::sleep(std::time::Duration::from_millis(1));
        }
        let visits = *visits.lock().unwrap();
        ensure!(visits == 0, "a broadcast visits {} connections after the shutdown", visits);
        let log = app.take_log();
        let opened = log.iter().filter(|e| matches!(e, Ev::Opened)).count();
        let closed = log.iter().filter(|e| matches!(e, Ev::Closed)).count();
        ensure!(opened == closed, "{} connections were announced as opened, but {} as closed after the shutdown", opened, closed);
        Ok(())
    });
    drop(d);
    rt.shutdown_background();
    *app.0.cmd.lock().unwrap() = None;
    *GLOBAL_APP.lock().unwrap_or_else(|e| e.into_inner()) = None;
    obs.nontrivial_if(s.clients > 1 && s.workers > 1);
    r
}

pub fn c25(s: &mut Suite) {
    let down = (vec(0u8..4, 0..4), vec(vec(l_op(), 1..6), 0..4), vec(l_op(), 0..5), 0u8..5, any::<u8>(), any::<bool>(), 0u8..3).prop_map(
        |(first, mut groups, unsettled, how, which, twice, reruns)| {
            groups.insert(0, first.into_iter().map(L::Connect).collect());
            Down { groups, unsettled, how, which, twice, reruns }
        },
    );
    s.sub("shutdown", (12_000, 500_000), "at least two clients waiting for the end of their stream", down, c25_case);
    let used = (0u8..9, vec(any::<u8>(), 0..20), 0u8..3).prop_map(|(kind, c, clients)| Used { kind, contents: B(c), clients });
    s.sub("used_path", (2_000, 20_000), "every case", used, used_case);
    let st = (1u8..5, 1u8..7, one_of![1u16..10, 100u16..3000], any::<bool>(), one_of![Just(0u32), 1u32..300_000], any::<bool>())
        .prop_map(|(workers, clients, messages, read, spin, connecting)| DownStress { workers, clients, messages, read, spin, connecting });
    s.sub("threads", (1_200, 40_000), "several clients and several worker threads", st, down_stress);
}
