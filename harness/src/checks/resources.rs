//! C34: what belongs to a closed connection is released.

use crate::fw::*;
use crate::refmodel::*;
use crate::tok::{fresh_socket_path, Client};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::net::Shutdown;
use std::os::unix::net::UnixStream;
use std::path::PathBuf;
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering::Relaxed, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use vt6::common::core::{msg, ClientID, ModuleIdentifier};
use vt6::server::tokio::Dispatch as TD;
use vt6::server::{
    Application, ClientCredentials, ClientIdentity, ClientSelector, Connection, ConnectionState, Dispatch, Handler, HandlerError,
    MessageConnector, MessageHandler, Notification, RejectHandler, ScreenIdentity, StdoutConnector,
};

/// Counts the bytes that are allocated at present.
pub struct Counting;
static HEAP: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        HEAP.fetch_add(l.size() as i64, Relaxed);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        HEAP.fetch_add(l.size() as i64, Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        HEAP.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        HEAP.fetch_add(n as i64 - l.size() as i64, Relaxed);
        System.realloc(p, l, n)
    }
}

static MSG: AtomicUsize = AtomicUsize::new(0);
static OUT: AtomicUsize = AtomicUsize::new(0);
static CLOSED: AtomicUsize = AtomicUsize::new(0);
static OPENED: AtomicUsize = AtomicUsize::new(0);

struct Mc(ClientIdentity);
impl MessageConnector for Mc {
    fn new(id: ClientIdentity) -> Self {
        MSG.fetch_add(1, SeqCst);
        Mc(id)
    }
    fn identity(&self) -> &ClientIdentity {
        &self.0
    }
}
impl Drop for Mc {
    fn drop(&mut self) {
        MSG.fetch_sub(1, SeqCst);
    }
}
struct Oc(u64);
impl StdoutConnector for Oc {
    fn new(_: ScreenIdentity) -> Self {
        OUT.fetch_add(1, SeqCst);
        Oc(0)
    }
    fn receive(&mut self, b: &[u8]) {
        self.0 += b.len() as u64;
    }
}
impl Drop for Oc {
    fn drop(&mut self) {
        OUT.fetch_sub(1, SeqCst);
    }
}

struct Out<'a>(&'a [u8]);
impl msg::EncodeMessage for Out<'_> {
    fn encode(&self, buf: &mut [u8]) -> Result<usize, msg::BufferTooSmallError> {
        if self.0.len() > buf.len() {
            return Err(msg::BufferTooSmallError(self.0.len() - buf.len()));
        }
        buf[..self.0.len()].copy_from_slice(self.0);
        Ok(self.0.len())
    }
}

#[derive(Clone)]
struct App;
impl Application for App {
    type MessageConnector = Mc;
    type StdoutConnector = Oc;
    type MessageHandler = H;
    type HandshakeHandler = vt6::server::core::HandshakeHandler<RejectHandler>;
    fn notify(&self, n: &Notification) {
        match n {
            Notification::ConnectionOpened => OPENED.fetch_add(1, SeqCst),
            Notification::ConnectionClosed => CLOSED.fetch_add(1, SeqCst),
            _ => 0,
        };
    }
    fn register_client(&self, _: ClientIdentity) -> ClientCredentials {
        ClientCredentials::generate()
    }
    fn unregister_clients(&self, _: ClientSelector) {}
    fn has_clients(&self, _: ClientSelector) -> bool {
        false
    }
    fn authorize_client(&self, secret: &str) -> Option<ClientIdentity> {
        (secret == "m").then(|| ClientIdentity::new(&ClientID::parse("a").unwrap()).with_stdin("s"))
    }
    fn find_client(&self, _: ClientID<'_>) -> Option<ClientIdentity> {
        None
    }
    fn authorize_stdin(&self, secret: &str) -> Option<ScreenIdentity> {
        (secret == "i").then(|| ScreenIdentity::new("s"))
    }
    fn authorize_stdout(&self, secret: &str) -> Option<ScreenIdentity> {
        (secret == "o").then(|| ScreenIdentity::new("s"))
    }
}
#[derive(Default)]
struct H(vt6::server::core::MessageHandler<RejectHandler>);
impl Handler<App> for H {
    fn handle<D: Dispatch<App>>(&self, m: &msg::Message, conn: &mut Connection<App, D>) -> Result<(), HandlerError> {
        match m.parsed_type().as_str() {
            "test1.echo" => {
                let mut v: Vec<&[u8]> = vec![b"test1.echo"];
                v.extend(m.arguments());
                conn.enqueue_message(&Out(&ref_format(&v)));
                Ok(())
            }
            "test1.cast" => {
                conn.dispatch().enqueue_broadcast(Box::new(|c| {
                    if c.message_connector().is_some() {
                        c.enqueue_message(&Out(b"{1|10:test1.cast,}"))
                    }
                }));
                Ok(())
            }
            "test1.die" => {
                conn.enqueue_message(&Out(b"{1|9:test1.die,}"));
                conn.set_state(ConnectionState::Teardown);
                Ok(())
            }
            _ => self.0.handle(m, conn),
        }
    }
    fn handle_error<D: Dispatch<App>>(&self, e: &msg::ParseError, conn: &mut Connection<App, D>) {
        Handler::<App>::handle_error(&self.0, e, conn)
    }
}
impl MessageHandler<App> for H {
    fn get_supported_module_version(&self, m: &ModuleIdentifier<'_>) -> Option<u16> {
        MessageHandler::<App>::get_supported_module_version(&self.0, m)
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum R {
    /// 0: messages, 1: stdin, 2: stdout, 3: stays in the handshake, 4: wrong secret
    Connect(u8),
    Visit,
    /// so many messages with so many bytes each
    Talk(u8, u8, u16),
    Cast(u8),
    Want(u8),
    /// the server queues so many bytes
    Feed(u8, u32),
    Partial(u8),
    Garbage(u8),
    Pause(u8),
    Resume(u8),
    Close(u8),
    HalfClose(u8),
    /// the client no longer reads
    Deaf(u8),
    Kill(u8),
    Die(u8),
    Settle,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Rounds {
    ops: Vec<R>,
    /// how the connections that are left at the end of a round are closed; 0: by the clients, 1: by the server, 2: both at once
    end: u8,
    rounds: u8,
}

struct W {
    rt: tokio::runtime::Runtime,
    d: TD<App>,
    path: PathBuf,
    clients: Vec<Client>,
    ids: Vec<Option<u64>>,
    opened: usize,
}

impl W {
    fn new() -> Result<W, String> {
        let path = fresh_socket_path();
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
        let d = TD::new(path.clone(), App).unwrap();
        let d2 = d.clone();
        rt.spawn(async move { d2.run_listener().await });
        let mut w = W { rt, d, path, clients: vec![], ids: vec![], opened: 0 };
        w.settle();
        ensure!(w.path.exists(), "the server does not start");
        Ok(w)
    }
    fn settle(&mut self) {
        let clients = &mut self.clients;
        self.rt.block_on(async move {
            let mut calm = 0;
            while calm < 4 {
                tokio::time::sleep(Duration::from_millis(1)).await;
                let mut moved = false;
                for c in clients.iter_mut() {
                    moved |= c.pump();
                    c.got.clear();
                }
                calm = if moved { 0 } else { calm + 1 };
            }
        });
    }
    /// IDs and states of all connections that the server has
    fn probe(&mut self) -> Vec<(u64, &'static str)> {
        let seen = Arc::new(Mutex::new(vec![]));
        let s2 = seen.clone();
        {
            let _g = self.rt.enter();
            self.d.enqueue_broadcast(Box::new(move |c| s2.lock().unwrap().push((c.id(), c.state().type_name()))));
        }
        self.settle();
        let v = seen.lock().unwrap().clone();
        v
    }
    fn on(&mut self, i: usize, f: impl Fn(&mut Connection<App, TD<App>>) + Send + Sync + 'static) {
        if let Some(id) = self.ids[i] {
            let _g = self.rt.enter();
            self.d.enqueue_broadcast(Box::new(move |c| {
                if c.id() == id {
                    f(c)
                }
            }));
        }
    }
    fn apply(&mut self, op: &R) -> Res {
        let n = self.clients.len();
        let pick = |c: &u8| *c as usize % n.max(1);
        let target = match op {
            R::Talk(c, ..) | R::Cast(c) | R::Want(c) | R::Feed(c, _) | R::Partial(c) | R::Garbage(c) | R::Pause(c) | R::Resume(c)
            | R::Close(c) | R::HalfClose(c) | R::Deaf(c) | R::Kill(c) | R::Die(c) => {
                if n == 0 {
                    return Ok(());
                }
                pick(c)
            }
            _ => 0,
        };
        match op {
            R::Connect(k) => {
                if n >= 10 {
                    return Ok(());
                }
                let before: Vec<u64> = self.probe().iter().map(|p| p.0).collect();
                let s = UnixStream::connect(&self.path).map_err(|e| format!("cannot connect: {}", e))?;
                self.clients.push(Client::new(s));
                self.opened += 1;
                self.settle();
                let id = self.probe().iter().map(|p| p.0).find(|i| !before.contains(i));
                ensure!(id.is_some(), "a broadcast does not reach the new connection");
                self.ids.push(id);
                let hello: &[u8] = match k {
                    0 => b"{2|19:posix1.client-hello,1:m,}",
                    1 => b"{2|18:posix1.stdin-hello,1:i,}",
                    2 => b"{2|19:posix1.stdout-hello,1:o,}",
                    4 => b"{2|19:posix1.stdout-hello,1:x,}",
                    _ => b"",
                };
                self.clients[n].push(hello);
                self.settle();
            }
            R::Visit => {
                drop(UnixStream::connect(&self.path).map_err(|e| format!("cannot connect: {}", e))?);
                self.opened += 1;
            }
            R::Talk(_, k, len) => {
                let m = ref_format(&[b"test1.echo", &vec![b'x'; *len as usize]]);
                for _ in 0..*k {
                    self.clients[target].push(&m);
                }
            }
            R::Cast(_) => self.clients[target].push(b"{1|10:test1.cast,}"),
            R::Want(_) => self.clients[target].push(b"{2|4:want,5:core1,}{2|4:want,4:foo9,}"),
            R::Feed(_, k) => {
                let k = *k as usize;
                self.on(target, move |c| {
                    if c.state().can_receive_stdin() {
                        c.enqueue_stdin(&vec![7u8; k]);
                    } else if c.message_connector().is_some() {
                        let m = ref_format(&[b"test1.data", &[b'y'; 800]]);
                        for _ in 0..k / m.len() + 1 {
                            c.enqueue_message(&Out(&m));
                        }
                    }
                })
            }
            R::Partial(_) => self.clients[target].push(b"{2|10:test1.echo,900:half"),
            R::Garbage(_) => self.clients[target].push(b"garbage{2|{"),
            R::Pause(_) => self.clients[target].paused = true,
            R::Resume(_) => self.clients[target].paused = false,
            R::Close(_) => self.clients[target].stream = None,
            R::HalfClose(_) | R::Deaf(_) => {
                if let Some(s) = &self.clients[target].stream {
                    let _ = s.shutdown(if matches!(op, R::HalfClose(_)) { Shutdown::Write } else { Shutdown::Read });
                }
            }
            R::Kill(_) => self.on(target, |c| c.set_state(ConnectionState::Teardown)),
            R::Die(_) => self.clients[target].push(b"{1|9:test1.die,}"),
            R::Settle => {
                self.settle();
                let p = self.probe();
                let count = |s: &str| p.iter().filter(|x| x.1 == s).count();
                ensure_eq!(MSG.load(SeqCst), count("Msgio"), "message connectors alive while the server has connections {:?}", p);
                ensure_eq!(OUT.load(SeqCst), count("Stdout"), "stdout connectors alive while the server has connections {:?}", p);
            }
        }
        Ok(())
    }
    fn tasks(&self) -> usize {
        self.rt.metrics().num_alive_tasks()
    }
}

/// Open sockets of this process.
fn sockets() -> usize {
    let d = match std::fs::read_dir("/proc/self/fd") {
        Ok(d) => d,
        Err(_) => return 0,
    };
    d.flatten().filter(|e| std::fs::read_link(e.path()).map_or(false, |l| l.as_os_str().as_encoded_bytes().starts_with(b"socket:"))).count()
}

fn grows(marks: &[i64], least: i64) -> bool {
    marks.len() > 3 && marks.windows(2).all(|w| w[1] - w[0] >= least)
}

fn c34_case(r: &Rounds, o: &mut Obs) -> Res {
    MSG.store(0, SeqCst);
    OUT.store(0, SeqCst);
    let mut w = W::new()?;
    let (fd0, task0) = (sockets(), w.tasks());
    let mut marks = vec![];
    let mut per_round = 0;
    for round in 0..4 + 4 * r.rounds as usize {
        let at = |e: String| format!("round {}: {}", round, e);
        let opened = w.opened;
        for op in &r.ops {
            w.apply(op).map_err(at)?;
        }
        w.apply(&R::Settle).map_err(at)?;
        let live = w.probe().len();
        if round == 0 {
            o.class_if(live > 0, "connections left for the end of the round");
            o.class_if(w.opened > 3, "more than three connections per round");
        }
        for i in 0..w.clients.len() {
            if r.end != 0 {
                w.on(i, |c| c.set_state(ConnectionState::Teardown));
            }
            if r.end != 1 {
                w.clients[i].stream = None;
            }
        }
        w.settle();
        w.clients = vec![];
        w.ids = vec![];
        w.settle();
        per_round = w.opened - opened;
        let left = w.probe();
        ensure!(left.is_empty(), "{}", at(format!("the server still has {:?} though all of them were closed", left)));
        ensure_eq!(MSG.load(SeqCst), 0, "round {}: message connectors alive after all connections were closed", round);
        ensure_eq!(OUT.load(SeqCst), 0, "round {}: stdout connectors alive after all connections were closed", round);
        ensure_eq!(w.tasks(), task0, "round {}: tasks alive after all connections were closed", round);
        ensure_eq!(sockets(), fd0, "round {}: open sockets after all connections were closed", round);
        if round >= 4 - 1 && (round + 1) % r.rounds as usize == 0 {
            marks.push(HEAP.load(SeqCst));
        }
    }
    o.nontrivial_if(per_round > 1);
    let marks = &marks[marks.len() - 4..];
    let least = (per_round as i64 * r.rounds as i64 * 16).max(256);
    if std::env::var_os("VT6CHECK_HEAP").is_some() {
        eprintln!("{:?} {} {}", marks.windows(2).map(|w| w[1] - w[0]).collect::<Vec<_>>(), per_round, r.rounds);
    }
    ensure!(
        per_round == 0 || !grows(marks, least),
        "the memory in use keeps growing: {:?} bytes after {} rounds each with {} connections, all closed",
        marks, r.rounds, per_round
    );
    let _ = std::fs::remove_file(&w.path);
    Ok(())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Steady {
    /// kinds of connection; only 0 and 1
    kinds: Vec<u8>,
    ops: Vec<R>,
    rounds: u8,
}

fn steady_case(r: &Steady, o: &mut Obs) -> Res {
    MSG.store(0, SeqCst);
    OUT.store(0, SeqCst);
    let mut w = W::new()?;
    for k in &r.kinds {
        w.apply(&R::Connect(*k))?;
    }
    let mut marks = vec![];
    for round in 0..4 + 4 * r.rounds as usize {
        for op in &r.ops {
            w.apply(op)?;
        }
        for c in w.clients.iter_mut() {
            c.paused = false;
        }
        w.settle();
        if round >= 4 - 1 && (round + 1) % r.rounds as usize == 0 {
            for c in w.clients.iter_mut() {
                c.got.shrink_to_fit();
            }
            marks.push(HEAP.load(SeqCst));
        }
    }
    let p = w.probe();
    ensure_eq!(p.len(), r.kinds.len(), "connections at the end");
    let talk = r.ops.iter().filter(|o| matches!(o, R::Talk(..) | R::Feed(..) | R::Cast(_) | R::Want(_))).count();
    o.nontrivial_if(talk > 0);
    let marks = &marks[marks.len() - 4..];
    if std::env::var_os("VT6CHECK_HEAP").is_some() {
        eprintln!("{:?} {}", marks.windows(2).map(|w| w[1] - w[0]).collect::<Vec<_>>(), r.rounds);
    }
    ensure!(
        !grows(marks, 16 * r.rounds as i64),
        "the memory in use keeps growing: {:?} bytes after {} rounds each of the same traffic, all of it delivered",
        marks, r.rounds
    );
    let _ = std::fs::remove_file(&w.path);
    Ok(())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Long {
    /// what the connections do, in turn
    how: Vec<u8>,
    /// how many of them at the same time
    group: u8,
}

/// Very many short connections: not a single word may stay for each of them.
fn long_case(l: &Long, o: &mut Obs) -> Res {
    const FIRST: u32 = 3_000;
    const ALL: u32 = 12_000;
    let mut w = W::new()?;
    let hello = b"{2|19:posix1.client-hello,1:m,}";
    let talk = [&hello[..], b"{2|10:test1.echo,3:abc,}{2|4:want,5:core1,}{1|8:foo1.bar,}"].concat();
    let die = [&hello[..], b"garbage{2|10:test1.echo,3:ab"].concat();
    let what: Vec<&[u8]> = vec![
        b"",
        hello,
        &talk,
        b"garbage",
        b"{2|18:posix1.stdin-hello,1:i,}",
        b"{2|19:posix1.stdout-hello,1:o,}some text",
        &die,
        b"{2|18:posix1.stdin-hello,1:i,}x",
        b"{2|19:posix1.client",
    ];
    let mut n = 0u32;
    let mut marks = vec![];
    let mut group = vec![];
    while n < ALL {
        for _ in 0..l.group as u32 % 50 + 1 {
            use std::io::Write;
            let mut c = UnixStream::connect(&w.path).map_err(|e| format!("cannot connect (number {}): {}", n, e))?;
            let _ = c.write_all(what[l.how[n as usize % l.how.len()] as usize % what.len()]);
            group.push(c);
            n += 1;
            if n == FIRST || n == ALL {
                break;
            }
        }
        w.rt.block_on(async { tokio::time::sleep(Duration::from_millis(1)).await });
        group.clear();
        w.rt.block_on(async { tokio::time::sleep(Duration::from_millis(1)).await });
        if n == FIRST || n == ALL {
            w.settle();
            group.shrink_to_fit();
            marks.push(HEAP.load(SeqCst));
        }
    }
    ensure_eq!(w.probe().len(), 0, "connections at the end");
    o.nontrivial_if(l.how.iter().any(|h| *h as usize % what.len() != 0));
    let grown = marks[1] - marks[0];
    if std::env::var_os("VT6CHECK_HEAP").is_some() {
        eprintln!("long {} {:?}", grown, l);
    }
    ensure!(
        grown < 40_000, // a little is released late; one word for each would be twice as much
        "{} bytes more are in use after {} more connections, all closed", grown, ALL - FIRST
    );
    let _ = std::fs::remove_file(&w.path);
    Ok(())
}

pub fn c34(s: &mut Suite) {
    let st = (vec(0u8..9, 1..10), any::<u8>()).prop_map(|(how, group)| Long { how, group });
    s.sub("long", (16, 1_000), "connections that say something", st, |l, o| long_case(l, o));
    let feed = || one_of![4 => 1u32..9000, 1 => 9000u32..60_000, 1 => 240_000u32..500_000];
    let talk = || (any::<u8>(), 1u8..12, one_of![3 => 0u16..100, 1 => 700u16..960]).prop_map(|(c, n, l)| R::Talk(c, n, l));
    let op = one_of![
        8 => one_of![3 => Just(0u8), 3 => 1u8..5].prop_map(R::Connect),
        1 => Just(R::Visit),
        3 => talk(),
        1 => any::<u8>().prop_map(R::Cast),
        1 => any::<u8>().prop_map(R::Want),
        3 => (any::<u8>(), feed()).prop_map(|(c, k)| R::Feed(c, k)),
        1 => any::<u8>().prop_map(R::Partial),
        1 => any::<u8>().prop_map(R::Garbage),
        2 => any::<u8>().prop_map(R::Pause),
        1 => any::<u8>().prop_map(R::Resume),
        2 => any::<u8>().prop_map(R::Close),
        1 => any::<u8>().prop_map(R::HalfClose),
        1 => any::<u8>().prop_map(R::Deaf),
        2 => any::<u8>().prop_map(R::Kill),
        1 => any::<u8>().prop_map(R::Die),
        2 => Just(R::Settle),
    ];
    let st = (vec(op, 1..14), 0u8..3, 4u8..7).prop_map(|(ops, end, rounds)| Rounds { ops, end, rounds });
    s.sub("rounds", (600, 60_000), "rounds with at least two connections", st, |r, o| c34_case(r, o));
    let op = one_of![
        4 => talk(),
        1 => any::<u8>().prop_map(R::Cast),
        1 => any::<u8>().prop_map(R::Want),
        4 => (any::<u8>(), feed()).prop_map(|(c, k)| R::Feed(c, k)),
        1 => any::<u8>().prop_map(R::Pause),
        1 => any::<u8>().prop_map(R::Resume),
        1 => Just(R::Settle),
    ];
    let st = (vec(op, 1..10), vec(0u8..2, 1..4), 4u8..7).prop_map(|(ops, mut kinds, rounds)| {
        kinds[0] = 0;
        // only clients in messages mode may send
        let ops = ops
            .into_iter()
            .map(|o| match o {
                R::Talk(_, a, b) => R::Talk(0, a, b),
                R::Cast(_) => R::Cast(0),
                R::Want(_) => R::Want(0),
                o => o,
            })
            .collect();
        Steady { kinds, ops, rounds }
    });
    s.sub("traffic", (600, 60_000), "rounds of traffic that is delivered completely", st, |r, o| steady_case(r, o));
}

// ---------------------------------------------------------------------------------------------------------
// many connections (C24)

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Many {
    /// the kinds of the connections that stay open
    held: Vec<u8>,
    /// how many connections come and go meanwhile, in groups of how many
    churn: u32,
    group: u8,
    /// which of the held ones are closed before the end
    kill: Vec<u8>,
}

pub fn many_case(m: &Many, o: &mut Obs) -> Res {
    MSG.store(0, SeqCst);
    OUT.store(0, SeqCst);
    OPENED.store(0, SeqCst);
    CLOSED.store(0, SeqCst);
    let mut w = W::new()?;
    let hello = |k: u8| -> &[u8] {
        match k {
            0 => b"{2|19:posix1.client-hello,1:m,}",
            1 => b"{2|18:posix1.stdin-hello,1:i,}",
            2 => b"{2|19:posix1.stdout-hello,1:o,}",
            _ => b"",
        }
    };
    for k in &m.held {
        let s = UnixStream::connect(&w.path).map_err(|e| format!("cannot connect: {}", e))?;
        let mut c = Client::new(s);
        c.push(hello(*k));
        w.clients.push(c);
        // stay within the backlog of the listener
        if w.clients.len() % 50 == 0 {
            w.settle();
        }
    }
    w.settle();
    let ids: Vec<u64> = {
        let mut v: Vec<u64> = w.probe().iter().map(|p| p.0).collect();
        v.sort();
        v
    };
    let distinct = |v: &Vec<u64>| v.windows(2).all(|x| x[0] < x[1]);
    ensure!(ids.len() == m.held.len() && distinct(&ids), "{} connections have the IDs {:?}", m.held.len(), ids);
    let mut left = m.churn;
    let mut group = vec![];
    let mut all = ids.clone();
    while left > 0 {
        for _ in 0..left.min(m.group as u32 + 1) {
            group.push(UnixStream::connect(&w.path).map_err(|e| format!("cannot connect ({} to go): {}", left, e))?);
            left -= 1;
        }
        // the server notices these
        w.rt.block_on(async { tokio::time::sleep(Duration::from_millis(1)).await });
        group.clear();
        if left % 256 == 0 {
            w.rt.block_on(async { tokio::time::sleep(Duration::from_millis(1)).await });
        }
    }
    w.settle();
    let total = m.held.len() + m.churn as usize;
    o.class_if(total > 256, "more than 256 connections");
    o.class_if(total > 65536, "more than 65536 connections");
    o.nontrivial_if(m.held.len() > 1 && m.churn > 0);
    let mut kinds = m.held.clone();
    let killed: std::collections::BTreeSet<usize> =
        if m.held.is_empty() { Default::default() } else { m.kill.iter().map(|k| *k as usize % m.held.len()).collect() };
    for k in killed.iter().rev() {
        w.clients.remove(*k);
        kinds.remove(*k);
    }
    w.settle();
    let mut now: Vec<u64> = w.probe().iter().map(|p| p.0).collect();
    now.sort();
    ensure!(
        now.len() == kinds.len() && distinct(&now) && now.iter().all(|i| ids.contains(i)),
        "{} connections are open after {} came and went, the server has {:?}", kinds.len(), m.churn, now
    );
    ensure_eq!(OPENED.load(SeqCst), total, "connections reported as opened");
    ensure_eq!(CLOSED.load(SeqCst), total - kinds.len(), "connections reported as closed");
    // each of them is still served
    for (i, k) in kinds.iter().enumerate() {
        if *k == 0 {
            w.clients[i].push(&ref_format(&[b"test1.echo", format!("nr{}", i).as_bytes()]));
        }
    }
    let clients = &mut w.clients;
    w.rt.block_on(async {
        let mut calm = 0;
        while calm < 4 {
            tokio::time::sleep(Duration::from_millis(1)).await;
            let moved = clients.iter_mut().fold(false, |m, c| c.pump() | m);
            calm = if moved { 0 } else { calm + 1 };
        }
    });
    for (i, k) in kinds.iter().enumerate() {
        ensure!(!w.clients[i].eof, "connection {} was closed", i);
        let want = if *k == 0 { ref_format(&[b"test1.echo", format!("nr{}", i).as_bytes()]) } else { vec![] };
        ensure_eq!(B(w.clients[i].got.clone()), B(want), "reply on connection {} of kind {}", i, k);
    }
    // and a new one gets an ID that was not used before
    all.sort();
    let s = UnixStream::connect(&w.path).map_err(|e| format!("cannot connect: {}", e))?;
    w.clients.push(Client::new(s));
    w.settle();
    let new: Vec<u64> = w.probe().iter().map(|p| p.0).filter(|i| !now.contains(i)).collect();
    ensure!(new.len() == 1 && !all.contains(&new[0]), "the new connection has the ID {:?}, used before were {:?}", new, all);
    w.clients = vec![];
    w.settle();
    ensure_eq!(OPENED.load(SeqCst), total + 1, "connections reported as opened in the end");
    ensure_eq!(CLOSED.load(SeqCst), total + 1, "connections reported as closed in the end");
    let _ = std::fs::remove_file(&w.path);
    Ok(())
}

pub fn many(s: &mut Suite) {
    let churn = one_of![6 => 0u32..40, 4 => 200u32..700];
    let held = one_of![3 => vec(0u8..4, 0..20), 1 => vec(0u8..4, 20..200)];
    let st = (held, churn, any::<u8>(), vec(any::<u8>(), 0..20))
        .prop_map(|(held, churn, group, kill)| Many { held, churn, group: group % 100, kill });
    s.sub("many", (150, 10_000), "some connections stay while others come and go", st, |m, o| many_case(m, o));
    let long = vec![Many { held: vec![0, 1, 2, 3, 0], churn: 66_000, group: 49, kill: vec![3] }];
    s.each("very many", "some connections stay while others come and go", long.into_iter(), |m, o| many_case(m, o));
}
