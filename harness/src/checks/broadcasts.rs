//! C23: broadcasts on the Tokio server.

use crate::checks::delivery::{join, pool_setup, Multi};
use crate::fw::*;
use crate::refmodel::*;
use crate::srv::*;
use crate::tok::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use vt6::server::tokio::Dispatch as TD;
use vt6::server::{ConnectionState, Dispatch, Notification};

/// A broadcast and what it does.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Act {
    /// broadcasts queued from within this one, when it runs for the first time (0), or on the k-th connection it visits
    pub nested: Vec<(u8, Act)>,
    /// tears down this connection (modulo number of connections) when it visits it
    pub kill: Option<u8>,
    /// sends a message to every message connection
    pub message: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// queued one after the other from outside
    Outside(Vec<Act>),
    /// queued by the handler of a message that this client sends
    Handler(u8, Vec<Act>),
    /// the client's message makes the handler queue these, twice in one chunk
    HandlerTwice(u8, Vec<Act>, Vec<Act>),
    /// queued by the application when it is next notified (0: opened, 1: closed, 2: discarded, 3: IO error)
    OnNotify(u8, Vec<Act>),
    Connect(u8),
    Close(u8),
    Garbage(u8),
    /// the client's message makes the handler tear the connection down
    Die(u8),
    Nudge(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub conns: Vec<u8>,
    /// the server comes to rest after each group
    pub groups: Vec<Vec<Op>>,
}

#[derive(Debug, Clone)]
enum L {
    Queued(usize),
    Run(usize, u64),
    /// the connection was set to teardown
    Killed(u64),
}

#[derive(Clone)]
struct Ctx {
    d: TD<TestApp>,
    log: Arc<Mutex<Vec<L>>>,
    next: Arc<AtomicUsize>,
    ids: Arc<Mutex<Vec<u64>>>,
}
impl Ctx {
    fn queue(&self, a: &Act) {
        let tag = self.next.fetch_add(1, SeqCst);
        self.log.lock().unwrap().push(L::Queued(tag));
        let (c, a, visits) = (self.clone(), a.clone(), AtomicUsize::new(0));
        self.d.enqueue_broadcast(Box::new(move |conn| {
            c.log.lock().unwrap().push(L::Run(tag, conn.id()));
            let v = visits.fetch_add(1, SeqCst);
            for (k, n) in &a.nested {
                if *k as usize == v {
                    c.queue(n);
                }
            }
            if a.message && matches!(conn.state(), ConnectionState::Msgio(_)) {
                conn.enqueue_message(&Items("test1.tick", vec![]));
            }
            if let Some(k) = a.kill {
                let ids = c.ids.lock().unwrap();
                if !ids.is_empty() && ids[k as usize % ids.len()] == conn.id() {
                    c.log.lock().unwrap().push(L::Killed(conn.id()));
                    conn.set_state(ConnectionState::Teardown);
                }
            }
        }));
    }
}

fn c23_case(case: &Case, obs: &mut Obs) -> Res {
    let mut w = TokioWorld::new(&pool_setup());
    let r = c23_inner(&mut w, case, obs);
    w.finish();
    r
}


fn c23_inner(w: &mut TokioWorld, case: &Case, obs: &mut Obs) -> Res {
    let ctx = Ctx { d: w.d.clone(), log: Default::default(), next: Default::default(), ids: Default::default() };
    let armed: Arc<Mutex<Vec<(u8, Vec<Act>)>>> = Default::default();
    let scripts: Arc<Mutex<Vec<Vec<Act>>>> = Default::default();
    for k in &case.conns {
        // kind 3: stays in the handshake
        if *k < 3 {
            join(w, *k as usize)?;
        } else {
            w.connect()?;
        }
    }
    let (c2, a2) = (ctx.clone(), armed.clone());
    *w.app.0.hook.lock().unwrap() = Some(Arc::new(move |_, n| {
        let k = match n {
            Notification::ConnectionOpened => 0,
            Notification::ConnectionClosed => 1,
            Notification::IncomingBytesDiscarded(_) => 2,
            Notification::ConnectionIOError(_) => 3,
        };
        let mine = {
            let mut a = a2.lock().unwrap();
            match a.iter().position(|x| x.0 == k) {
                Some(i) => a.remove(i).1,
                None => vec![],
            }
        };
        for a in mine {
            c2.queue(&a);
        }
    }));
    let (c3, s3) = (ctx.clone(), scripts.clone());
    *w.app.0.cmd.lock().unwrap() = Some(Arc::new(move |args: &[B]| {
        let n: usize = String::from_utf8_lossy(&args[0]).parse().unwrap();
        let acts = s3.lock().unwrap()[n].clone();
        for a in &acts {
            c3.queue(a);
        }
    }));
    let script = |acts: &Vec<Act>| {
        let mut s = scripts.lock().unwrap();
        s.push(acts.clone());
        ref_format(&[b"test1.hook", (s.len() - 1).to_string().as_bytes()])
    };

    let mut kinds: Vec<u8> = case.conns.clone();
    let mut open: BTreeSet<u64> = w.probe()?.keys().copied().collect();
    let mut judged = 0;
    let mut armed_total = 0;
    for (no, group) in case.groups.iter().enumerate() {
        *ctx.ids.lock().unwrap() = open.iter().copied().collect();
        let highest = open.iter().max().copied();
        let mut handler_ran = false;
        for op in group {
            let n = w.clients.len();
            let pick = |c: &u8| *c as usize % n;
            let usable = |w: &TokioWorld, i: usize| w.clients[i].stream.is_some() && !w.clients[i].eof && kinds[i] == 0;
            let mut to_send = None;
            match op {
                Op::Outside(acts) => {
                    let _g = w.rt.enter();
                    for a in acts {
                        ctx.queue(a);
                    }
                    obs.class("outside");
                }
                Op::Handler(c, acts) if usable(w, pick(c)) => {
                    to_send = Some((pick(c), script(acts)));
                    handler_ran = true;
                }
                Op::HandlerTwice(c, a, b) if usable(w, pick(c)) => {
                    let mut m = script(a);
                    m.extend_from_slice(&ref_format(&[b"want", b"core1"]));
                    m.extend_from_slice(&script(b));
                    to_send = Some((pick(c), m));
                    handler_ran = true;
                }
                Op::OnNotify(k, acts) => {
                    armed.lock().unwrap().push((*k % 4, acts.clone()));
                    armed_total += 1;
                }
                Op::Connect(k) if n < 7 => {
                    let s = std::os::unix::net::UnixStream::connect(&w.path).map_err(|e| e.to_string())?;
                    w.clients.push(Client::new(s));
                    kinds.push(*k);
                    if *k < 3 {
                        let sec = format!("{}{}", ["mk", "ik", "ok"][*k as usize], n);
                        to_send = Some((n, ref_format(&[HELLOS[*k as usize].as_bytes(), sec.as_bytes()])));
                    }
                }
                Op::Close(c) => w.close(pick(c)),
                Op::Garbage(c) if usable(w, pick(c)) => to_send = Some((pick(c), b"garbage\n{{}".to_vec())),
                Op::Die(c) if usable(w, pick(c)) => to_send = Some((pick(c), ref_format(&[b"test1.die"]))),
                Op::Nudge(k) => {
                    for c in w.clients.iter_mut() {
                        c.pump();
                    }
                    w.nudge(*k as usize);
                }
                _ => {}
            }
            if let Some((i, m)) = to_send {
                w.send(i, &m);
                w.clients[i].pump();
            }
        }
        w.settle();
        obs.class_if(handler_ran, "handler");
        // The probe might set stuck broadcasts going, so what counts is the log before it.
        let log = ctx.log.lock().unwrap().clone();
        let after: BTreeSet<u64> = w.probe().map_err(|e| format!("group {}: {}", no, e))?.keys().copied().collect();
        judge(&log, judged, &open, &after, highest).map_err(|e| format!("group {}: {}", no, e))?;
        let late = ctx.log.lock().unwrap().len();
        ensure!(late == log.len(), "group {}: broadcasts did not run until another one was queued", no);
        judged = log.len();
        open = after;
    }
    let log = ctx.log.lock().unwrap();
    let count = log.iter().filter(|l| matches!(l, L::Queued(_))).count();
    obs.class_if(armed_total > armed.lock().unwrap().len(), "notification");
    obs.class_if(log.iter().any(|l| matches!(l, L::Killed(_))), "broadcast tears down a connection");
    obs.class_if(log.windows(2).any(|w| matches!(w, [L::Run(..), L::Queued(_)])), "queued by a broadcast");
    obs.nontrivial_if(count >= 3 && log.iter().filter(|l| matches!(l, L::Run(..))).count() > count);
    Ok(())
}

/// Judges the log; of the part from `from` on, it is known which connections were open before and after it.
fn judge(log: &[L], from: usize, before: &BTreeSet<u64>, after: &BTreeSet<u64>, highest: Option<u64>) -> Res {
    let mut last: BTreeMap<u64, usize> = BTreeMap::new();
    let mut runs: BTreeMap<usize, BTreeSet<u64>> = BTreeMap::new();
    let show = || format!("{:?}", &log[log.len().saturating_sub(40)..]);
    for l in log {
        if let L::Run(t, c) = l {
            ensure!(runs.entry(*t).or_default().insert(*c), "broadcast {} ran twice on connection {}: {}", t, c, show());
            if let Some(p) = last.get(c) {
                ensure!(p < t, "broadcast {} ran on connection {} after broadcast {}: {}", t, c, p, show());
            }
            last.insert(*c, *t);
        }
    }
    for l in &log[from..] {
        if let L::Queued(t) = l {
            let r = runs.get(t).cloned().unwrap_or_default();
            for c in before.intersection(after) {
                ensure!(
                    r.contains(c),
                    "broadcast {} did not run on connection {}, which was open all the time: {}", t, c, show()
                );
            }
            for c in &r {
                let new = highest.map_or(true, |h| *c > h);
                ensure!(before.contains(c) || new, "broadcast {} ran on connection {}, which was closed: {}", t, c, show());
            }
        }
    }
    Ok(())
}

fn act(depth: u32) -> BoxedStrategy<Act> {
    let kill = one_of![9 => Just(None), 1 => (0u8..6).prop_map(Some)];
    let nested = if depth == 0 {
        Just(vec![]).boxed()
    } else {
        one_of![3 => Just(vec![]), 2 => vec((0u8..4, act(depth - 1)), 1..3)].boxed()
    };
    (nested, kill, prop::bool::weighted(0.3)).prop_map(|(nested, kill, message)| Act { nested, kill, message }).boxed()
}
fn acts() -> BoxedStrategy<Vec<Act>> {
    vec(act(2), 1..4).boxed()
}
fn case() -> BoxedStrategy<Case> {
    let op = one_of![
        5 => acts().prop_map(Op::Outside),
        6 => (0u8..6, acts()).prop_map(|(c, a)| Op::Handler(c, a)),
        2 => (0u8..6, acts(), acts()).prop_map(|(c, a, b)| Op::HandlerTwice(c, a, b)),
        4 => (0u8..4, acts()).prop_map(|(k, a)| Op::OnNotify(k, a)),
        2 => (0u8..4).prop_map(Op::Connect),
        1 => (0u8..6).prop_map(Op::Close),
        2 => (0u8..6).prop_map(Op::Garbage),
        1 => (0u8..6).prop_map(Op::Die),
        2 => (0u8..8).prop_map(Op::Nudge),
    ];
    (vec(one_of![3 => Just(0u8), 2 => 1u8..4], 1..5), vec(vec(op, 1..4), 1..10))
        .prop_map(|(conns, groups)| Case { conns, groups })
        .boxed()
}

// ---------------------------------------------------------------------------------------------------------
// several threads

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Stress {
    pub workers: u8,
    pub clients: u8,
    pub threads: u8,
    pub rounds: u16,
    /// messages sent by each client, whose handler queues a broadcast, too
    pub requests: u16,
    pub spin: u16,
    pub slow_action: u16,
}

fn stress_case(s: &Stress, obs: &mut Obs) -> Res {
    let m = Multi::new(s.workers as usize, &pool_setup());
    let r = stress_inner(&m, s);
    m.finish();
    obs.class_if(s.requests > 0, "outside and handlers");
    obs.nontrivial_if(s.rounds > 2 && s.threads as u16 + s.requests > 1);
    r
}

type Counts = Arc<(Mutex<BTreeMap<(u64, usize), Vec<usize>>>, Condvar)>;

fn stress_inner(m: &Multi, s: &Stress) -> Res {
    let mut socks = vec![];
    for i in 0..s.clients as usize {
        socks.push(m.join(0, i)?);
    }
    // (connection, source) -> sequence numbers in the order they ran
    let counts: Counts = Default::default();
    let total = Arc::new((Mutex::new(0usize), Condvar::new()));
    let visit = {
        let (counts, total) = (counts.clone(), total.clone());
        let slow = s.slow_action as usize;
        move |conn: u64, src: usize, k: usize| {
            counts.0.lock().unwrap().entry((conn, src)).or_default().push(k);
            for _ in 0..slow {
                std::hint::spin_loop();
            }
            *total.0.lock().unwrap() += 1;
            total.1.notify_all();
        }
    };
    let (v2, d2) = (visit.clone(), m.d.clone());
    *m.app.0.cmd.lock().unwrap() = Some(Arc::new(move |args: &[B]| {
        let num = |i: usize| String::from_utf8_lossy(&args[i]).parse::<usize>().unwrap();
        let (src, k, v) = (num(0), num(1), v2.clone());
        d2.enqueue_broadcast(Box::new(move |conn| v(conn.id(), src, k)));
    }));
    let expected = s.clients as usize * (s.threads as usize * s.rounds as usize + s.clients as usize * s.requests as usize);
    let mut threads = vec![];
    for t in 0..s.threads as usize {
        let (v, d, h, s) = (visit.clone(), m.d.clone(), m.rt.handle().clone(), s.clone());
        threads.push(std::thread::spawn(move || {
            let _g = h.enter();
            let mut x = t as u64 * 77 + 13;
            for k in 0..s.rounds as usize {
                let v = v.clone();
                d.enqueue_broadcast(Box::new(move |conn| v(conn.id(), t, k)));
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                for _ in 0..(x >> 33) as usize % (s.spin as usize + 1) {
                    std::hint::spin_loop();
                }
            }
        }));
    }
    for (i, sock) in socks.iter().enumerate() {
        let mut sock = sock.try_clone().unwrap();
        let n = s.requests as usize;
        threads.push(std::thread::spawn(move || {
            for k in 0..n {
                let m = ref_format(&[b"test1.hook", (100 + i).to_string().as_bytes(), k.to_string().as_bytes()]);
                let _ = sock.write_all(&m);
            }
        }));
    }
    for t in threads {
        t.join().map_err(|_| "a thread that queues broadcasts panicked".to_string())?;
    }
    // nothing else happens from here on: if a broadcast is stuck, everything sleeps (which the monitor reports)
    let mut n = total.0.lock().unwrap();
    while *n < expected {
        n = total.1.wait(n).unwrap();
    }
    drop(n);
    let c = counts.0.lock().unwrap();
    let mut sum = 0;
    for ((conn, src), ks) in c.iter() {
        let rounds = if *src >= 100 { s.requests } else { s.rounds } as usize;
        ensure!(
            ks.iter().copied().eq(0..rounds),
            "connection {}: broadcasts of source {} ran in the order {:?}", conn, src, &ks[..ks.len().min(200)]
        );
        sum += ks.len();
    }
    ensure!(sum == expected, "{} visits instead of {}", sum, expected);
    for s in &socks {
        let mut s = s;
        s.set_nonblocking(true).unwrap();
        let mut b = [0u8; 64];
        if let Ok(n) = s.read(&mut b) {
            ensure!(n > 0, "a client was disconnected");
        }
    }
    Ok(())
}

fn stress() -> BoxedStrategy<Stress> {
    (
        1u8..5,
        1u8..5,
        0u8..6,
        one_of![1u16..10, 50u16..400],
        one_of![Just(0u16), 1u16..60],
        one_of![Just(0u16), 1u16..3000],
        one_of![Just(0u16), 1u16..2000],
    )
        .prop_map(|(workers, clients, threads, rounds, requests, spin, slow_action)| Stress {
            workers,
            clients,
            threads,
            rounds,
            requests,
            spin,
            slow_action,
        })
        .boxed()
}

pub fn c23(s: &mut Suite) {
    s.sub("histories", (20_000, 800_000), "at least three broadcasts and more visits than broadcasts", case(), c23_case);
    s.sub("threads", (2_400, 60_000), "broadcasts from at least two sources", stress(), stress_case);
}
