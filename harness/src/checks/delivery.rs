//! C22: delivery of queued messages and standard input on the Tokio server.

use crate::fw::*;
use crate::refmodel::*;
use crate::srv::*;
use crate::tok::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::Read;
use std::os::unix::net::UnixStream;
use std::sync::{Arc, Mutex};
use vt6::server::{ConnectionState, Dispatch};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum F {
    /// queue for the connection so many messages (or pieces of stdin) of about this size, in one broadcast
    Queue(u8, u16, u8),
    /// one for everyone, in one broadcast
    All(u16),
    /// a big piece of stdin at once (for message connections: many messages)
    Big(u8, u32),
    /// the client sends messages to be echoed
    Echo(u8, u16, u8),
    /// the client sends a message that makes the handler queue a message for everyone, by a broadcast
    EchoAll(u8, u16),
    Pause(u8),
    Resume(u8),
    Slow(u8, u16),
    Nudge(u8),
    Settle,
    /// the client goes away
    Close(u8),
    /// another client arrives (true: for messages)
    Open(bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Flow {
    pub conns: Vec<bool>,
    pub ops: Vec<F>,
}

pub fn pool_setup() -> Setup {
    Setup {
        clients: (0..16).map(|i| ClientSpec { id: format!("c{:02}", i), scr: Default::default(), secret: format!("mk{}", i) }).collect(),
        screens: (0..16)
            .map(|i| ScreenSpec { id: format!("s{:02}", i), stdin: format!("ik{}", i), stdout: format!("ok{}", i) })
            .collect(),
    }
}
/// Opens a connection and completes its handshake (kind 0: messages, 1: stdin, 2: stdout); returns the client's number.
pub fn join(w: &mut TokioWorld, kind: usize) -> Result<usize, String> {
    let i = w.connect()?;
    let sec = format!("{}{}", ["mk", "ik", "ok"][kind], i);
    w.send(i, &ref_format(&[HELLOS[kind].as_bytes(), sec.as_bytes()]));
    w.settle();
    let want = if kind == 0 { ref_format(&[b"posix1.server-hello", format!("c{:02}", i).as_bytes(), b"", b"", b""]) } else { vec![] };
    let c = &mut w.clients[i];
    ensure!(c.got == want && !c.eof, "after the handshake client {} has received {:?}", i, B(c.got.clone()));
    c.got.clear();
    Ok(i)
}

/// Bytes that identify themselves: position and number are recognisable anywhere.
pub fn pattern(tag: u64, n: usize) -> Vec<u8> {
    let mut x = tag.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    let mut v = format!("<{}:{}>", tag, n).into_bytes();
    while v.len() < n {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        v.extend_from_slice(&x.to_le_bytes());
    }
    v.truncate(n.max(1));
    v
}

type Expected = Arc<Mutex<Vec<(u64, Vec<u8>)>>>;

/// Queues data for a connection if its mode permits, and records it.
fn queue(conn: &mut TConn, tag: u64, size: usize, exp: &Expected) {
    // (the library itself permits messages during the handshake)
    if matches!(conn.state(), ConnectionState::Msgio(_)) {
        let p = pattern(tag, size.min(990));
        conn.enqueue_message(&Items("test1.data", vec![&p[..]]));
        exp.lock().unwrap().push((conn.id(), ref_format(&[b"test1.data", &p[..]])));
    } else if conn.state().can_receive_stdin() {
        let p = pattern(tag, size);
        let d = conn.dispatch();
        d.enqueue_stdin(conn, &p);
        exp.lock().unwrap().push((conn.id(), p));
    }
}

pub fn c22_case(f: &Flow, obs: &mut Obs) -> Res {
    let mut w = TokioWorld::new(&pool_setup());
    let r = c22_inner(&mut w, f, obs);
    w.finish();
    r
}

fn c22_inner(w: &mut TokioWorld, f: &Flow, obs: &mut Obs) -> Res {
    let exp: Expected = Default::default();
    for m in &f.conns {
        join(w, if *m { 0 } else { 1 })?;
    }
    let e2 = exp.clone();
    let d2 = w.d.clone();
    *w.app.0.cmd.lock().unwrap() = Some(Arc::new(move |args: &[B]| {
        let tag: u64 = String::from_utf8_lossy(&args[0]).parse().unwrap();
        let size: usize = String::from_utf8_lossy(&args[1]).parse().unwrap();
        let e3 = e2.clone();
        d2.enqueue_broadcast(Box::new(move |conn| {
            let id = conn.id();
            queue(conn, tag * 100 + id, size, &e3)
        }));
    }));
    // the first argument of an echo request names the connection
    let e4 = exp.clone();
    *w.app.0.on_echo.lock().unwrap() = Some(Arc::new(move |args: &[B]| {
        let id: u64 = String::from_utf8_lossy(&args[0]).parse().unwrap();
        let mut items: Vec<&[u8]> = vec![b"test1.echoed"];
        items.extend(args.iter().map(|a| &a.0[..]));
        e4.lock().unwrap().push((id, ref_format(&items)));
    }));
    let mut kinds = f.conns.clone();
    let mut tag = 0u64;
    let mut total = 0usize;
    let mut blocked = 0;
    for op in &f.ops {
        let n = w.clients.len();
        let pick = |c: &u8| *c as usize % n;
        match op {
            F::Queue(c, size, count) => {
                let id = w.clients[pick(c)].conn_id.unwrap();
                let (e, size, count) = (exp.clone(), *size as usize, *count as u64);
                let t0 = tag;
                tag += count;
                total += size * count as usize;
                w.broadcast(move |conn| {
                    if conn.id() == id {
                        for k in 0..count {
                            queue(conn, t0 + k, size, &e);
                        }
                    }
                });
            }
            F::All(size) => {
                let (e, size) = (exp.clone(), *size as usize);
                let t0 = tag;
                tag += 100;
                total += size * n;
                w.broadcast(move |conn| {
                    let id = conn.id();
                    queue(conn, t0 + id, size, &e)
                });
            }
            F::Big(c, size) => {
                let id = w.clients[pick(c)].conn_id.unwrap();
                let (e, size) = (exp.clone(), *size as usize);
                let t0 = tag;
                tag += 1000;
                total += size;
                w.broadcast(move |conn| {
                    if conn.id() == id {
                        if conn.state().can_receive_stdin() {
                            queue(conn, t0, size, &e);
                        } else {
                            for k in 0..size / 900 {
                                queue(conn, t0 + k as u64, 900 - (k % 7), &e);
                            }
                        }
                    }
                });
            }
            F::Echo(c, size, count) => {
                let i = pick(c);
                if w.clients[i].stream.is_none() || !kinds[i] {
                    continue;
                }
                let id = w.clients[i].conn_id.unwrap();
                let mut v = vec![];
                for _ in 0..*count {
                    tag += 1;
                    let p = pattern(tag, (*size as usize).min(900));
                    v.extend_from_slice(&ref_format(&[b"test1.echo", id.to_string().as_bytes(), &p[..]]));
                }
                total += v.len();
                w.send(i, &v);
            }
            F::EchoAll(c, size) => {
                let i = pick(c);
                if w.clients[i].stream.is_none() || !kinds[i] {
                    continue;
                }
                tag += 1;
                total += *size as usize * n;
                w.send(i, &ref_format(&[b"test1.hook", (1_000_000 + tag).to_string().as_bytes(), size.to_string().as_bytes()]));
            }
            F::Pause(c) => w.clients[pick(c)].paused = true,
            F::Resume(c) => w.clients[pick(c)].paused = false,
            F::Slow(c, k) => w.clients[pick(c)].slow = *k as usize,
            F::Nudge(k) => {
                for c in w.clients.iter_mut() {
                    c.pump();
                }
                w.nudge(*k as usize)
            }
            F::Settle => w.settle(),
            F::Close(c) => w.close(pick(c)),
            F::Open(m) => {
                if n < 8 {
                    let k = if *m { 0 } else { 1 };
                    let i = join(w, k)?;
                    kinds.push(*m);
                    debug_assert_eq!(kinds.len(), i + 1);
                }
            }
        }
    }
    w.settle();
    blocked += w.clients.iter().filter(|c| c.paused).count();
    // from here on only the clients read; the server gets no further input
    for c in w.clients.iter_mut() {
        c.paused = false;
        c.slow = 0;
    }
    w.settle();
    let exp = exp.lock().unwrap();
    for (i, c) in w.clients.iter().enumerate() {
        let id = c.conn_id.unwrap();
        let want: Vec<u8> = exp.iter().filter(|e| e.0 == id).flat_map(|e| e.1.iter().copied()).collect();
        if c.stream.is_none() {
            ensure!(want.starts_with(&c.got), "client {} (who left) received something that was not queued like this: {}", i, differ(&c.got, &want));
            continue;
        }
        ensure!(!c.eof, "client {} was disconnected", i);
        ensure!(c.got == want, "client {}: {}", i, differ(&c.got, &want));
    }
    obs.class_if(blocked > 0, "client not reading");
    obs.class_if(total > 250_000, "more than the socket buffer");
    obs.class_if(total > 1_000_000, "more than 1 MB");
    obs.nontrivial_if(total > 9_000);
    Ok(())
}

pub fn differ(got: &[u8], want: &[u8]) -> String {
    let k = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    format!(
        "received {} bytes, queued were {} bytes, first difference at {}: received {:?}, queued {:?}",
        got.len(),
        want.len(),
        k,
        B(got[k..got.len().min(k + 60)].to_vec()),
        B(want[k..want.len().min(k + 60)].to_vec())
    )
}

fn flow() -> BoxedStrategy<Flow> {
    let size = || {
        one_of![
            3 => 1u16..200,
            4 => 200u16..1000,
            1 => Just(990u16),
            1 => 1000u16..9000,
            1 => 4000u16..4150,
            2 => crate::lit::lit_size(9000).prop_map(|n| n as u16),
        ]
    };
    let op = one_of![
        8 => (0u8..6, size(), 1u8..12).prop_map(|(c, s, n)| F::Queue(c, s, n)),
        2 => (0u8..6, 900u16..1000, 20u8..120).prop_map(|(c, s, n)| F::Queue(c, s, n)),
        3 => size().prop_map(F::All),
        3 => (0u8..6, one_of![4000u32..4100, 8100u32..8200, 1u32..60_000, 60_000u32..260_000, crate::lit::lit_size(100_000).prop_map(|n| n as u32)]).prop_map(|(c, s)| F::Big(c, s)),
        5 => (0u8..6, size(), 1u8..12).prop_map(|(c, s, n)| F::Echo(c, s, n)),
        2 => (0u8..6, size()).prop_map(|(c, s)| F::EchoAll(c, s)),
        3 => (0u8..6).prop_map(F::Pause),
        2 => (0u8..6).prop_map(F::Resume),
        2 => (0u8..6, one_of![500u16..5000, 4000u16..5000]).prop_map(|(c, n)| F::Slow(c, n)),
        4 => (0u8..12).prop_map(F::Nudge),
        2 => Just(F::Settle),
        1 => (0u8..6).prop_map(F::Close),
        1 => any::<bool>().prop_map(F::Open),
    ];
    (vec(prop::bool::weighted(0.65), 1..4), vec(op, 1..24)).prop_map(|(conns, ops)| Flow { conns, ops }).boxed()
}

/// Very much is queued while the clients do not read.
fn bulk() -> BoxedStrategy<Flow> {
    let part = one_of![
        3 => (0u8..3, one_of![4 => 1_000_000u32..4_000_000, 3 => 3_000_000u32..9_000_000, 1 => 9_000_000u32..24_000_000]).prop_map(|(c, n)| F::Big(c, n)),
        1 => (0u8..3, 1u16..1000, 1u8..50).prop_map(|(c, s, n)| F::Queue(c, s, n)),
        1 => (0u8..12).prop_map(F::Nudge),
        1 => Just(F::Settle),
        1 => (0u8..3, 1u16..900, 1u8..12).prop_map(|(c, s, n)| F::Echo(c, s, n)),
    ];
    (vec(any::<bool>(), 1..3), 0u8..3, vec(part, 1..5))
        .prop_map(|(conns, readers, parts)| {
            let mut ops = vec![];
            for c in readers..3 {
                ops.push(F::Pause(c));
            }
            ops.extend(parts);
            Flow { conns, ops }
        })
        .boxed()
}

// ---------------------------------------------------------------------------------------------------------
// several threads

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Stress {
    pub workers: u8,
    pub clients: u8,
    pub producers: u8,
    pub rounds: u16,
    pub size: u16,
    pub spin: u16,
    /// wait for each round to arrive before queueing the next
    pub lockstep: bool,
    pub slow_readers: bool,
}

/// A server on a multi-threaded runtime.
pub struct Multi {
    pub rt: tokio::runtime::Runtime,
    pub d: vt6::server::tokio::Dispatch<TestApp>,
    pub app: TestApp,
    pub path: std::path::PathBuf,
    pub listener: tokio::task::JoinHandle<std::io::Result<()>>,
}
impl Multi {
    pub fn new(workers: usize, setup: &Setup) -> Multi {
        let app = TestApp::new(setup);
        *GLOBAL_APP.lock().unwrap_or_else(|e| e.into_inner()) = Some(app.clone());
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(workers).enable_all().build().unwrap();
        let path = fresh_socket_path();
        let d = vt6::server::tokio::Dispatch::new(path.clone(), app.clone()).unwrap();
        let d2 = d.clone();
        let listener = rt.spawn(async move { d2.run_listener().await });
        while !path.exists() {
            std::thread::sleep(std::time::Duration::from_millis(1));
        }
        Multi { rt, d, app, path, listener }
    }
    /// As join(), or without a handshake.
    pub fn join_any(&self, kind: usize, no: usize) -> Result<UnixStream, String> {
        if kind < 3 {
            self.join(kind, no)
        } else {
            UnixStream::connect(&self.path).map_err(|e| format!("cannot connect: {}", e))
        }
    }
    /// Connects and completes the handshake, with blocking reads.
    pub fn join(&self, kind: usize, no: usize) -> Result<UnixStream, String> {
        use std::io::Write;
        let mut s = loop {
            match UnixStream::connect(&self.path) {
                Ok(s) => break s,
                // bound, but not listening yet
                Err(e) if e.kind() == std::io::ErrorKind::ConnectionRefused => {
                    std::thread::sleep(std::time::Duration::from_millis(1))
                }
                Err(e) => return Err(format!("cannot connect: {}", e)),
            }
        };
        let sec = format!("{}{}", ["mk", "ik", "ok"][kind], no);
        s.write_all(&ref_format(&[HELLOS[kind].as_bytes(), sec.as_bytes()])).map_err(|e| e.to_string())?;
        if kind == 0 {
            let want = ref_format(&[b"posix1.server-hello", format!("c{:02}", no).as_bytes(), b"", b"", b""]);
            let mut got = vec![0; want.len()];
            s.read_exact(&mut got).map_err(|e| format!("handshake: {}", e))?;
            ensure!(got == want, "handshake answered with {:?}", B(got));
        }
        Ok(s)
    }
    pub fn finish(self) {
        self.d.shutdown();
        drop(self.listener);
        self.rt.shutdown_background();
        let _ = std::fs::remove_file(&self.path);
        *self.app.0.cmd.lock().unwrap_or_else(|e| e.into_inner()) = None;
        *self.app.0.hook.lock().unwrap_or_else(|e| e.into_inner()) = None;
        *GLOBAL_APP.lock().unwrap_or_else(|e| e.into_inner()) = None;
    }
}

fn stress_case(s: &Stress, obs: &mut Obs) -> Res {
    let m = Multi::new(s.workers as usize, &pool_setup());
    let r = stress_inner(&m, s);
    m.finish();
    obs.class_if(s.lockstep, "one at a time");
    obs.class_if(!s.lockstep, "flood");
    obs.nontrivial_if(s.workers > 1 && s.rounds as u32 * s.producers as u32 > 10);
    r
}

fn stress_inner(m: &Multi, s: &Stress) -> Res {
    let mut socks = vec![];
    for i in 0..s.clients as usize {
        socks.push(m.join(0, i)?);
    }
    let per_conn = s.rounds as usize * s.producers as usize;
    let wire = |p: usize, k: usize, size: usize| {
        let body = pattern((p * 1_000_000 + k) as u64, size);
        ref_format(&[b"test1.data", format!("{}", p).as_bytes(), format!("{}", k).as_bytes(), &body[..]])
    };
    let size = s.size as usize;
    let arrived: Arc<(Mutex<Vec<usize>>, std::sync::Condvar)> =
        Arc::new((Mutex::new(vec![0; s.producers as usize]), Default::default()));
    let mut readers = vec![];
    for (i, mut sock) in socks.into_iter().enumerate() {
        let arrived = arrived.clone();
        let slow = s.slow_readers && i % 2 == 1;
        let producers = s.producers as usize;
        readers.push(std::thread::spawn(move || -> Result<UnixStream, String> {
            let mut next = vec![0usize; producers];
            let mut buf: Vec<u8> = vec![];
            let mut chunk = vec![0u8; if slow { 700 } else { 65536 }];
            let mut seen = 0;
            while seen < per_conn {
                let n = sock.read(&mut chunk).map_err(|e| format!("client {}: {}", i, e))?;
                ensure!(n > 0, "client {} was disconnected", i);
                if slow {
                    std::thread::yield_now();
                }
                buf.extend_from_slice(&chunk[..n]);
                let mut pos = 0;
                while let Verdict::Msg { items, len } = ref_parse(&buf[pos..]) {
                    let items: Vec<B> = items.iter().map(|r| B(buf[pos + r.0..pos + r.1].to_vec())).collect();
                    let num = |k: usize| items.get(k).and_then(|b| String::from_utf8_lossy(b).parse::<usize>().ok()).unwrap_or(usize::MAX);
                    let (p, k) = (num(1), num(2));
                    ensure!(p < producers, "client {} received something that was not queued: {:?}", i, items);
                    ensure!(k == next[p], "client {}: message {} of thread {} arrived when {} was due", i, k, p, next[p]);
                    let want = wire(p, k, size);
                    ensure!(buf[pos..pos + len] == want[..], "client {}: message {} of thread {}: {}", i, k, p, differ(&buf[pos..pos + len], &want));
                    next[p] += 1;
                    seen += 1;
                    pos += len;
                    let mut a = arrived.0.lock().unwrap();
                    a[p] += 1;
                    arrived.1.notify_all();
                }
                buf.drain(..pos);
                ensure!(buf.len() < 3000, "client {} received something that is no message: {:?}", i, B(buf[..200].to_vec()));
            }
            ensure!(buf.is_empty(), "client {} received too much: {:?}", i, B(buf));
            Ok(sock)
        }));
    }
    let nclients = s.clients as usize;
    let mut threads = vec![];
    for p in 0..s.producers as usize {
        let d = m.d.clone();
        let h = m.rt.handle().clone();
        let arrived = arrived.clone();
        let (rounds, spin, lockstep) = (s.rounds as usize, s.spin as usize, s.lockstep);
        threads.push(std::thread::spawn(move || {
            let _g = h.enter();
            let mut x = p as u64 * 77 + 13;
            for k in 0..rounds {
                d.enqueue_broadcast(Box::new(move |conn| {
                    if matches!(conn.state(), ConnectionState::Msgio(_)) {
                        let body = pattern((p * 1_000_000 + k) as u64, size);
                        conn.enqueue_message(&Items(
                            "test1.data",
                            vec![format!("{}", p).as_bytes(), format!("{}", k).as_bytes(), &body[..]],
                        ));
                    }
                }));
                if lockstep {
                    let mut a = arrived.0.lock().unwrap();
                    while a[p] < (k + 1) * nclients {
                        a = arrived.1.wait(a).unwrap();
                    }
                }
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                for _ in 0..(x >> 33) as usize % (spin + 1) {
                    std::hint::spin_loop();
                }
            }
        }));
    }
    let mut err = Ok(());
    let mut back = vec![];
    for r in readers {
        match r.join() {
            Ok(Ok(s)) => back.push(s),
            Ok(Err(e)) => err = err.and(Err(e)),
            Err(_) => err = err.and(Err("reader panicked".to_string())),
        }
    }
    if err.is_ok() {
        for t in threads {
            t.join().map_err(|_| "a thread queueing broadcasts panicked".to_string())?;
        }
    }
    err?;
    for (i, s) in back.iter().enumerate() {
        s.set_nonblocking(true).unwrap();
        let mut b = [0u8; 100];
        let mut s = s;
        if let Ok(n) = s.read(&mut b) {
            ensure!(n > 0, "client {} was disconnected", i);
            return Err(format!("client {} received more than was queued: {:?}", i, B(b[..n].to_vec())));
        }
    }
    Ok(())
}

fn stress() -> BoxedStrategy<Stress> {
    (
        1u8..5,
        1u8..5,
        1u8..5,
        one_of![1u16..60, 60u16..400],
        one_of![1u16..40, 800u16..950],
        one_of![Just(0u16), 1u16..2000],
        any::<bool>(),
        any::<bool>(),
    )
        .prop_map(|(workers, clients, producers, rounds, size, spin, lockstep, slow_readers)| Stress {
            workers,
            clients,
            producers,
            rounds,
            size,
            spin,
            lockstep,
            slow_readers,
        })
        .boxed()
}

// ---------------------------------------------------------------------------------------------------------
// newcomers: other threads act on connections as soon as they can see them

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Newcomers {
    pub workers: u8,
    /// threads that keep looking for connections not seen before
    pub greeters: u8,
    /// how long they wait in between
    pub gap: u16,
    /// per thread: what its clients do right after connecting (0: nothing, 1: handshake)
    pub clients: Vec<Vec<u8>>,
    /// every how many connections one is torn down at first sight (0: never)
    pub kill: u8,
}

fn newcomers_case(s: &Newcomers, obs: &mut Obs) -> Res {
    let setup = Setup {
        clients: (0..200).map(|i| ClientSpec { id: format!("c{:02}", i), scr: Default::default(), secret: format!("mk{}", i) }).collect(),
        screens: vec![],
    };
    let m = Multi::new(s.workers as usize, &setup);
    let r = newcomers_inner(&m, s, obs);
    m.finish();
    r
}

fn newcomers_inner(m: &Multi, s: &Newcomers, obs: &mut Obs) -> Res {
    use std::io::Write;
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    let opened: Arc<(Mutex<usize>, std::sync::Condvar)> = Default::default();
    let o2 = opened.clone();
    *m.app.0.hook.lock().unwrap() = Some(Arc::new(move |_, n| {
        if matches!(n, vt6::server::Notification::ConnectionOpened) {
            *o2.0.lock().unwrap() += 1;
            o2.1.notify_all();
        }
    }));
    drop(m.join(0, 0)?); // the server is listening now
    let total = 1 + s.clients.iter().map(|c| c.len()).sum::<usize>();
    let seen: Arc<Mutex<std::collections::HashSet<u64>>> = Default::default();
    let idle = Arc::new(AtomicUsize::new(0));
    let kill = s.kill as u64;
    let greet = {
        let (seen, idle) = (seen.clone(), idle.clone());
        move |conn: &mut TConn| {
            let id = conn.id();
            if !seen.lock().unwrap().insert(id) {
                idle.fetch_add(1, SeqCst);
            } else if kill > 0 && id % kill == 1 {
                conn.set_state(ConnectionState::Teardown);
            } else {
                conn.enqueue_message(&Items("test1.greeting", vec![format!("{}", id).as_bytes()]));
            }
        }
    };
    let stop = Arc::new(AtomicUsize::new(0));
    let mut greeters = vec![];
    for _ in 0..s.greeters {
        let (d, h, stop, greet, gap) = (m.d.clone(), m.rt.handle().clone(), stop.clone(), greet.clone(), s.gap);
        greeters.push(std::thread::spawn(move || {
            let _g = h.enter();
            // (not forever: several of them can keep the server from accepting anybody)
            for _ in 0..40_000 {
                if stop.load(SeqCst) > 0 {
                    break;
                }
                let g = greet.clone();
                d.enqueue_broadcast(Box::new(move |conn| g(conn)));
                for _ in 0..gap {
                    std::hint::spin_loop();
                }
            }
        }));
    }
    let mut clients = vec![];
    for (t, acts) in s.clients.iter().enumerate() {
        let (acts, path) = (acts.clone(), m.path.clone());
        clients.push(std::thread::spawn(move || -> Result<Vec<UnixStream>, String> {
            let mut socks = vec![];
            for (k, a) in acts.iter().enumerate() {
                let mut sock = UnixStream::connect(&path).map_err(|e| format!("cannot connect: {}", e))?;
                if *a == 1 {
                    // (whoever is torn down at first sight may be gone already)
                    let _ = sock.write_all(&ref_format(&[HELLOS[0].as_bytes(), format!("mk{}", 1 + 60 * t + k).as_bytes()]));
                }
                socks.push(sock);
                // let one go before the next one comes
                for _ in 0..200 * (k % 7) {
                    std::hint::spin_loop();
                }
            }
            Ok(socks)
        }));
    }
    let mut socks = vec![];
    let mut err = Ok(());
    for c in clients {
        match c.join().unwrap_or(Err("client thread panicked".into())) {
            Ok(v) => socks.extend(v),
            Err(e) => err = Err(e),
        }
    }
    if err.is_ok() {
        let mut n = opened.0.lock().unwrap();
        while *n < total {
            n = opened.1.wait(n).unwrap();
        }
    }
    stop.store(1, SeqCst);
    for g in greeters {
        g.join().map_err(|_| "a thread queueing broadcasts panicked".to_string())?;
    }
    err?;
    {
        // everybody has been seen after this
        let _g = m.rt.handle().enter();
        let g = greet.clone();
        m.d.enqueue_broadcast(Box::new(move |conn| g(conn)));
        m.d.enqueue_broadcast(Box::new(move |conn| {
            if conn.state().can_receive_messages() {
                conn.enqueue_message(&Items("test1.end", vec![format!("{}", conn.id()).as_bytes()]))
            }
        }));
    }
    let mut killed = 0;
    let mut ids = std::collections::HashSet::new();
    for (i, sock) in socks.iter_mut().enumerate() {
        let mut buf: Vec<u8> = vec![];
        let mut got: Vec<Vec<B>> = vec![];
        let mut eof = false;
        'read: loop {
            while let Verdict::Msg { items, len } = ref_parse(&buf) {
                got.push(items.iter().map(|r| B(buf[r.0..r.1].to_vec())).collect());
                buf.drain(..len);
                if got.last().unwrap()[0].0 == b"test1.end" {
                    break 'read;
                }
            }
            let mut chunk = [0u8; 4096];
            match sock.read(&mut chunk) {
                Ok(0) | Err(_) => {
                    eof = true;
                    break;
                }
                Ok(n) => buf.extend_from_slice(&chunk[..n]),
            }
        }
        // (the reply to the handshake may come last)
        ensure!(
            b"{5|19:posix1.server-hello,".starts_with(&buf[..buf.len().min(26)]),
            "client {} received {:?} after {:?}", i, B(buf), got
        );
        let of = |t: &str| got.iter().filter(|m| m[0].0 == t.as_bytes()).map(|m| m.get(1).map(|b| String::from_utf8_lossy(b).to_string())).collect::<Vec<_>>();
        let (greeted, ended) = (of("test1.greeting"), of("test1.end"));
        if eof {
            ensure!(kill > 0, "client {} was disconnected after {:?}", i, got);
            ensure!(greeted.is_empty() && ended.is_empty(), "client {} was greeted and disconnected: {:?}", i, got);
            killed += 1;
            continue;
        }
        ensure!(
            greeted.len() == 1 && greeted == ended,
            "client {} was greeted as soon as it was seen, but received only {:?}", i, got
        );
        let id = greeted[0].as_ref().and_then(|t| t.parse::<u64>().ok()).unwrap_or(u64::MAX);
        ensure!(ids.insert(id), "two clients were greeted as connection {}", id);
        ensure!(kill == 0 || id % kill != 1, "connection {} was torn down, but client {} is still served", id, i);
    }
    obs.class_if(kill > 0 && killed > 0, "torn down at first sight");
    // some were seen by the greeters, and the greeters were looking all the time
    obs.nontrivial_if(ids.len() > 1 && idle.load(SeqCst) > 100);
    Ok(())
}

fn newcomers() -> BoxedStrategy<Newcomers> {
    (
        1u8..4,
        one_of![Just(1u8), Just(1u8), Just(2u8)],
        one_of![30u16..400, 30u16..150],
        vec(vec(0u8..2, 1..60), 1..3),
        one_of![Just(0u8), Just(0u8), 2u8..6],
    )
        .prop_map(|(workers, greeters, gap, clients, kill)| Newcomers { workers, greeters, gap, clients, kill })
        .boxed()
}

pub fn c22(s: &mut Suite) {
    s.sub("flow", (24_000, 800_000), "more than two send buffers' worth of data queued", flow(), c22_case);
    s.sub("bulk", (96, 4_000), "more than 2 MB queued for clients that do not read", bulk(), |f, o| {
        c22_case(f, o)?;
        o.nontrivial_if(f.ops.iter().map(|op| if let F::Big(_, n) = op { *n } else { 0 }).sum::<u32>() > 2_000_000);
        Ok(())
    });
    s.sub(
        "threads",
        (2_400, 60_000),
        "more than one worker thread and more than ten broadcasts",
        stress(),
        stress_case,
    );
    s.sub(
        "newcomers",
        (1_600, 60_000),
        "at least two clients greeted while other threads kept looking for new ones",
        newcomers(),
        newcomers_case,
    );
}
