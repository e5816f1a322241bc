//! The real Tokio server on real Unix sockets, driven on a current-thread runtime with a paused clock.

use crate::fw::*;
use crate::srv::*;
use std::collections::BTreeMap;
use std::io::{ErrorKind, Read, Write};
use std::os::unix::net::UnixStream;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use vt6::server::tokio::Dispatch as TD;
use vt6::server::{ConnectionState, Dispatch};

pub type TConn = vt6::server::Connection<TestApp, TD<TestApp>>;

static SOCK_NO: AtomicU64 = AtomicU64::new(0);
pub fn fresh_socket_path() -> PathBuf {
    scratch_dir().join(format!("s{}", SOCK_NO.fetch_add(1, SeqCst)))
}

pub struct Client {
    pub stream: Option<UnixStream>,
    pub got: Vec<u8>,
    pub eof: bool,
    /// the client does not read at the moment
    pub paused: bool,
    /// read at most so many bytes per round (0: no limit)
    pub slow: usize,
    pub conn_id: Option<u64>,
    pub reset: bool,
    outgoing: Vec<u8>,
}
impl Client {
    pub fn new(stream: UnixStream) -> Client {
        stream.set_nonblocking(true).unwrap();
        Client {
            stream: Some(stream),
            got: vec![],
            eof: false,
            paused: false,
            slow: 0,
            conn_id: None,
            reset: false,
            outgoing: vec![],
        }
    }
    /// Moves what can be moved; returns whether anything was.
    pub fn pump(&mut self) -> bool {
        let s = match &mut self.stream {
            Some(s) => s,
            None => return false,
        };
        let mut moved = false;
        while !self.outgoing.is_empty() {
            match s.write(&self.outgoing) {
                Ok(n) => {
                    self.outgoing.drain(..n);
                    moved = true;
                }
                Err(e) if e.kind() == ErrorKind::WouldBlock => break,
                Err(_) => {
                    self.outgoing.clear();
                    moved = true;
                }
            }
        }
        if self.paused || self.eof {
            return moved;
        }
        let mut buf = [0u8; 65536];
        loop {
            let cap = if self.slow == 0 { buf.len() } else { self.slow };
            match s.read(&mut buf[..cap]) {
                Ok(0) => {
                    self.eof = true;
                    return true;
                }
                Ok(n) => {
                    self.got.extend_from_slice(&buf[..n]);
                    moved = true;
                    if self.slow > 0 {
                        return true;
                    }
                }
                Err(e) if e.kind() == ErrorKind::WouldBlock => return moved,
                Err(_) => {
                    // connection reset: the server closed it with unread input
                    self.eof = true;
                    self.reset = true;
                    return true;
                }
            }
        }
    }
    pub fn push(&mut self, bytes: &[u8]) {
        self.outgoing.extend_from_slice(bytes);
    }
    pub fn unsent(&self) -> usize {
        self.outgoing.len()
    }
    /// Has the other side closed both directions? (Seen without reading anything.)
    pub fn hung_up(&self) -> bool {
        use std::os::fd::AsRawFd;
        let s = match &self.stream {
            Some(s) => s,
            None => return true,
        };
        let mut p = libc::pollfd { fd: s.as_raw_fd(), events: 0, revents: 0 };
        unsafe { libc::poll(&mut p, 1, 0) };
        p.revents & libc::POLLHUP != 0
    }
}

pub struct TokioWorld {
    pub rt: tokio::runtime::Runtime,
    pub d: TD<TestApp>,
    pub app: TestApp,
    pub path: PathBuf,
    pub clients: Vec<Client>,
    pub listener: Option<tokio::task::JoinHandle<std::io::Result<()>>>,
    settled: u64,
    pub known: BTreeMap<u64, usize>,
}

impl TokioWorld {
    pub fn new(s: &Setup) -> TokioWorld {
        TokioWorld::new_at(s, fresh_socket_path()).unwrap()
    }

    pub fn new_at(s: &Setup, path: PathBuf) -> Result<TokioWorld, String> {
        let app = TestApp::new(s);
        CURRENT_APP.with(|a| *a.borrow_mut() = Some(app.clone()));
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
        let d = TD::new(path.clone(), app.clone()).unwrap();
        let d2 = d.clone();
        let listener = rt.spawn(async move { d2.run_listener().await });
        let mut w = TokioWorld { rt, d, app, path, clients: vec![], listener: Some(listener), known: BTreeMap::new(), settled: 0 };
        w.settle();
        if w.listener.as_ref().map_or(true, |l| l.is_finished()) {
            let r = w.rt.block_on(w.listener.take().unwrap());
            return Err(format!("the server does not start: {:?}", r));
        }
        Ok(w)
    }

    /// Lets every task run until nothing moves any more.
    pub fn settle(&mut self) {
        let clients = &mut self.clients;
        let app = self.app.clone();
        self.settled += 1;
        // now and then much time passes, which must not make a difference
        let mut wait = self.settled % 3 == 0;
        self.rt.block_on(async move {
            let mut calm = 0;
            let mut last_log = app.lock().log.len();
            while calm < 5 || wait {
                if calm >= 5 {
                    tokio::time::sleep(Duration::from_secs(100_000)).await;
                    wait = false;
                    calm = 0;
                }
                tokio::time::sleep(Duration::from_millis(1)).await;
                let mut moved = false;
                for c in clients.iter_mut() {
                    moved |= c.pump();
                }
                let l = app.lock().log.len();
                moved |= l != last_log;
                last_log = l;
                calm = if moved { 0 } else { calm + 1 };
            }
        });
    }

    /// Lets the tasks run a little without waiting for quiescence.
    pub fn nudge(&mut self, n: usize) {
        self.rt.block_on(async move {
            for _ in 0..n {
                tokio::task::yield_now().await;
            }
        });
    }

    pub fn broadcast(&self, f: impl Fn(&mut TConn) + Send + Sync + 'static) {
        // outside of tasks, but inside of the runtime's context, as an application would
        let _g = self.rt.enter();
        self.d.enqueue_broadcast(Box::new(f));
    }

    /// Connection IDs and states, as seen by a broadcast.
    pub fn probe(&mut self) -> Result<BTreeMap<u64, String>, String> {
        let seen: Arc<Mutex<Vec<(u64, String)>>> = Arc::new(Mutex::new(vec![]));
        let s2 = seen.clone();
        self.broadcast(move |conn| s2.lock().unwrap().push((conn.id(), describe_state(conn.state()))));
        if Arc::strong_count(&seen) != 1 {
            self.settle();
        }
        if Arc::strong_count(&seen) != 1 {
            return Err("a broadcast queued from outside did not run though the server is idle".into());
        }
        let v = seen.lock().unwrap();
        let mut m = BTreeMap::new();
        for (id, st) in v.iter() {
            if m.insert(*id, st.clone()).is_some() {
                return Err(format!("a broadcast ran more than once on connection {}", id));
            }
        }
        Ok(m)
    }

    pub fn connect(&mut self) -> Result<usize, String> {
        let s = UnixStream::connect(&self.path).map_err(|e| format!("cannot connect: {}", e))?;
        self.clients.push(Client::new(s));
        let i = self.clients.len() - 1;
        self.settle();
        let p = self.probe()?;
        let new: Vec<u64> = p.keys().filter(|k| !self.known.contains_key(k)).copied().collect();
        ensure!(new.len() == 1, "after one connect there are {} new connection IDs ({:?})", new.len(), new);
        self.known.insert(new[0], i);
        self.clients[i].conn_id = Some(new[0]);
        Ok(i)
    }

    pub fn send(&mut self, i: usize, bytes: &[u8]) {
        self.clients[i].outgoing.extend_from_slice(bytes);
    }

    pub fn close(&mut self, i: usize) {
        self.clients[i].stream = None;
    }

    /// Ends the server and checks that it ends.
    pub fn shutdown(&mut self) -> Res {
        let listener = match self.listener.take() {
            Some(l) => l,
            None => return Ok(()),
        };
        self.d.shutdown();
        self.settle();
        ensure!(listener.is_finished(), "run_listener() does not finish after shutdown()");
        match self.rt.block_on(listener) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return Err(format!("run_listener() ended with error {}", e)),
            Err(e) => return Err(format!("run_listener() panicked: {}", e)),
        }
        Ok(())
    }

    /// No alarm here: shutdown is decided by its own check.
    pub fn finish(mut self) {
        for c in self.clients.iter_mut() {
            c.stream = None;
        }
        self.settle();
        self.d.shutdown();
        self.settle();
        let _ = std::fs::remove_file(&self.path);
        CURRENT_APP.with(|a| *a.borrow_mut() = None);
        *self.app.0.hook.lock().unwrap_or_else(|e| e.into_inner()) = None;
        *self.app.0.cmd.lock().unwrap_or_else(|e| e.into_inner()) = None;
        *self.app.0.on_echo.lock().unwrap_or_else(|e| e.into_inner()) = None;
    }
}

impl World for TokioWorld {
    fn app(&self) -> TestApp {
        self.app.clone()
    }
    fn conns(&self) -> usize {
        self.clients.len()
    }
    fn step(&mut self, s: &Step) -> Result<Snap, String> {
        match s {
            Step::Open => {
                self.connect()?;
            }
            Step::Close(i) => {
                self.close(*i);
                self.settle();
            }
            Step::Send(i, bytes) => {
                self.send(*i, bytes);
                self.settle();
            }
        }
        let states = self.probe()?;
        let mut snap = Snap { log: self.app.take_log(), clients: self.app.registered(), ..Default::default() };
        for (i, c) in self.clients.iter().enumerate() {
            let st = c.conn_id.and_then(|id| states.get(&id).cloned()).unwrap_or("Teardown".into());
            snap.state.insert(i, st);
            snap.out.insert(i, c.got.clone());
        }
        Ok(snap)
    }
}

#[allow(dead_code)]
pub fn is_teardown(s: &ConnectionState<TestApp>) -> bool {
    matches!(s, ConnectionState::Teardown)
}
