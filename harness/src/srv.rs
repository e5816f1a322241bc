//! Shared parts of the server checks: a recording application with its handlers, an in-memory dispatch, and the
//! reference model of a VT6 server (written from the property statements, sharing no code with /repo).

use crate::fw::*;
use crate::gen::*;
use crate::refmodel::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use vt6::common::core::{msg, ClientID, EncodeArgument, ModuleIdentifier};
use vt6::server::*;

pub type Screens = [String; 3]; // "" = absent

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct ClientSpec {
    pub id: String,
    pub scr: Screens,
    pub secret: String,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct ScreenSpec {
    pub id: String,
    pub stdin: String,
    pub stdout: String,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Setup {
    pub clients: Vec<ClientSpec>,
    pub screens: Vec<ScreenSpec>,
}

/// What the application (or a handler in the chain) gets to see.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Step(usize),
    Opened,
    Closed,
    IoError,
    Discarded(B),
    /// Discarded while the connection is being torn down (model only): whatever had arrived.
    DiscardedAtEnd(B),
    Authorized(&'static str, String),
    Registered(String, Screens),
    Stdout(String, B),
    /// Message presented to the message handler chain, and to its part behind core::MessageHandler.
    Seen(String, Vec<B>),
    Inner(String, Vec<B>),
    HsSeen(String, Vec<B>),
    HsInner(String, Vec<B>),
    ParseError(&'static str, String, usize),
    Bad(String),
}

pub fn push_ev(log: &mut Vec<Ev>, e: Ev) {
    match (log.last_mut(), e) {
        (Some(Ev::Discarded(a)), Ev::Discarded(b)) => a.0.extend_from_slice(&b),
        (Some(Ev::Stdout(s, a)), Ev::Stdout(t, b)) if *s == t => a.0.extend_from_slice(&b),
        (_, e) => log.push(e),
    }
}

pub type Hook = Arc<dyn Fn(&TestApp, &Notification) + Send + Sync>;
pub type Cmd = Arc<dyn Fn(&[B]) + Send + Sync>;

pub struct Inner {
    pub clients: Vec<(String, Screens, String, bool)>,
    pub screens: Vec<(ScreenSpec, bool, bool)>,
    pub log: Vec<Ev>,
    pub made: Vec<String>,
}
pub struct Shared {
    pub inner: Mutex<Inner>,
    /// called for every notification
    pub hook: Mutex<Option<Hook>>,
    /// called by the message handler for test1.hook
    pub cmd: Mutex<Option<Cmd>>,
    /// called with the arguments of test1.echo before it is answered
    pub on_echo: Mutex<Option<Cmd>>,
}
#[derive(Clone)]
pub struct TestApp(pub Arc<Shared>);
impl std::fmt::Debug for TestApp {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("TestApp")
    }
}

fn opt(s: Option<&str>) -> String {
    s.unwrap_or("").to_string()
}
pub fn screens_of(i: &ClientIdentity) -> Screens {
    [opt(i.stdin_screen_id()), opt(i.stdout_screen_id()), opt(i.stderr_screen_id())]
}
fn selector_matches(s: &ClientSelector, id: &str) -> bool {
    match s {
        ClientSelector::StrictlyBelow(c) => id.starts_with(c.as_str()) && id != c.as_str(),
        ClientSelector::AtOrBelow(c) => id.starts_with(c.as_str()),
    }
}
fn make_identity(id: &str, scr: &Screens) -> ClientIdentity {
    let mut i = ClientIdentity::new(&ClientID::parse(id).unwrap());
    if !scr[0].is_empty() {
        i = i.with_stdin(&scr[0]);
    }
    if !scr[1].is_empty() {
        i = i.with_stdout(&scr[1]);
    }
    if !scr[2].is_empty() {
        i = i.with_stderr(&scr[2]);
    }
    i
}
pub fn describe_client(id: &str, scr: &Screens) -> String {
    format!("{}{:?}", id, scr)
}

impl TestApp {
    pub fn new(s: &Setup) -> TestApp {
        TestApp(Arc::new(Shared {
            inner: Mutex::new(Inner {
                clients: s.clients.iter().map(|c| (c.id.clone(), c.scr.clone(), c.secret.clone(), false)).collect(),
                screens: s.screens.iter().map(|c| (c.clone(), false, false)).collect(),
                log: vec![],
                made: vec![],
            }),
            hook: Mutex::new(None),
            cmd: Mutex::new(None),
            on_echo: Mutex::new(None),
        }))
    }
    pub fn lock(&self) -> std::sync::MutexGuard<'_, Inner> {
        self.0.inner.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn ev(&self, e: Ev) {
        push_ev(&mut self.lock().log, e)
    }
    pub fn take_log(&self) -> Vec<Ev> {
        std::mem::take(&mut self.lock().log)
    }
    pub fn registered(&self) -> Vec<(String, Screens)> {
        let mut v: Vec<_> = self.lock().clients.iter().map(|c| (c.0.clone(), c.1.clone())).collect();
        v.sort();
        v
    }
}

impl Application for TestApp {
    type MessageConnector = MsgConn;
    type StdoutConnector = OutConn;
    type MessageHandler = Tap<core::MessageHandler<TestModule<RejectHandler>>>;
    type HandshakeHandler = HsTap<core::HandshakeHandler<HsInner<RejectHandler>>>;

    fn notify(&self, n: &Notification) {
        // a logging application does this
        let text = format!("{} {:?} {}", n, n, n.is_error());
        match n {
            Notification::ConnectionOpened => self.ev(Ev::Opened),
            Notification::ConnectionIOError(_) => self.ev(Ev::IoError),
            Notification::ConnectionClosed => self.ev(Ev::Closed),
            Notification::IncomingBytesDiscarded(b) => self.ev(Ev::Discarded(B(b.to_vec()))),
        }
        std::hint::black_box(text);
        let hook = self.0.hook.lock().unwrap_or_else(|e| e.into_inner()).clone();
        if let Some(h) = hook {
            h(self, n);
        }
    }
    fn register_client(&self, i: ClientIdentity) -> ClientCredentials {
        let creds = ClientCredentials::generate();
        let id = i.client_id().as_str().to_string();
        let scr = screens_of(&i);
        self.ev(Ev::Registered(id.clone(), scr.clone()));
        let mut a = self.lock();
        a.clients.push((id, scr, creds.secret().to_string(), false));
        a.made.push(creds.secret().to_string());
        creds
    }
    fn unregister_clients(&self, s: ClientSelector) {
        self.lock().clients.retain(|c| !selector_matches(&s, &c.0));
    }
    fn has_clients(&self, s: ClientSelector) -> bool {
        self.lock().clients.iter().any(|c| selector_matches(&s, &c.0))
    }
    fn authorize_client(&self, secret: &str) -> Option<ClientIdentity> {
        let (id, scr) = {
            let mut a = self.lock();
            let c = a.clients.iter_mut().find(|c| c.2 == secret && !c.3)?;
            c.3 = true;
            (c.0.clone(), c.1.clone())
        };
        self.ev(Ev::Authorized("client", describe_client(&id, &scr)));
        Some(make_identity(&id, &scr))
    }
    fn find_client(&self, id: ClientID<'_>) -> Option<ClientIdentity> {
        let a = self.lock();
        a.clients.iter().find(|c| c.0 == id.as_str()).map(|c| make_identity(&c.0, &c.1))
    }
    fn authorize_stdin(&self, secret: &str) -> Option<ScreenIdentity> {
        let id = {
            let mut a = self.lock();
            let s = a.screens.iter_mut().find(|s| s.0.stdin == secret && !s.1)?;
            s.1 = true;
            s.0.id.clone()
        };
        self.ev(Ev::Authorized("stdin", id.clone()));
        Some(ScreenIdentity::new(&id))
    }
    fn authorize_stdout(&self, secret: &str) -> Option<ScreenIdentity> {
        let id = {
            let mut a = self.lock();
            let s = a.screens.iter_mut().find(|s| s.0.stdout == secret && !s.2)?;
            s.2 = true;
            s.0.id.clone()
        };
        self.ev(Ev::Authorized("stdout", id.clone()));
        Some(ScreenIdentity::new(&id))
    }
}

thread_local! {
    /// The application that connectors created on this thread report to (StdoutConnector::new gets no handle).
    pub static CURRENT_APP: std::cell::RefCell<Option<TestApp>> = std::cell::RefCell::new(None);
}
/// For servers running on several threads, where only one application exists at a time.
pub static GLOBAL_APP: Mutex<Option<TestApp>> = Mutex::new(None);

#[derive(Debug)]
pub struct MsgConn(ClientIdentity);
impl MessageConnector for MsgConn {
    fn new(id: ClientIdentity) -> Self {
        MsgConn(id)
    }
    fn identity(&self) -> &ClientIdentity {
        &self.0
    }
}
#[derive(Debug)]
pub struct OutConn(ScreenIdentity);
impl StdoutConnector for OutConn {
    fn new(id: ScreenIdentity) -> Self {
        OutConn(id)
    }
    fn receive(&mut self, buf: &[u8]) {
        let app = CURRENT_APP.with(|a| a.borrow().clone());
        let app = app.or_else(|| GLOBAL_APP.lock().unwrap_or_else(|e| e.into_inner()).clone());
        if let Some(app) = app {
            app.ev(Ev::Stdout(self.0.screen_id().to_string(), B(buf.to_vec())));
        }
    }
}

pub fn describe_out(c: &OutConn) -> String {
    c.0.screen_id().to_string()
}
pub fn describe_state(s: &ConnectionState<TestApp>) -> String {
    match s {
        ConnectionState::Handshake => "Handshake".into(),
        ConnectionState::Msgio(c) => {
            format!("Msgio {}", describe_client(c.0.client_id().as_str(), &screens_of(&c.0)))
        }
        ConnectionState::Stdin(s) => format!("Stdin {}", s.screen_id()),
        ConnectionState::Stdout(c) => format!("Stdout {}", c.0.screen_id()),
        ConnectionState::Teardown => "Teardown".into(),
    }
}

fn show_error(e: &msg::ParseError) {
    std::hint::black_box(e.to_string());
    if e.buffer.len() < 2000 {
        std::hint::black_box(format!("{:?}", e));
    }
}
fn unpack(m: &msg::Message) -> (String, Vec<B>) {
    // a logging application does this
    std::hint::black_box(format!("{} {:?}", m, m));
    (m.parsed_type().as_str().to_string(), m.arguments().map(|a| B(a.to_vec())).collect())
}

#[derive(Default)]
pub struct Tap<H>(H);
impl<H: Handler<TestApp>> Handler<TestApp> for Tap<H> {
    fn handle<D: Dispatch<TestApp>>(
        &self,
        m: &msg::Message,
        conn: &mut Connection<TestApp, D>,
    ) -> Result<(), HandlerError> {
        let (t, a) = unpack(m);
        conn.dispatch().application().ev(Ev::Seen(t, a));
        self.0.handle(m, conn)
    }
    fn handle_error<D: Dispatch<TestApp>>(&self, e: &msg::ParseError, conn: &mut Connection<TestApp, D>) {
        show_error(e);
        conn.dispatch().application().ev(Ev::ParseError("outer", e.kind.to_string(), e.offset));
        self.0.handle_error(e, conn)
    }
}
impl<H: MessageHandler<TestApp>> MessageHandler<TestApp> for Tap<H> {
    fn get_supported_module_version(&self, m: &ModuleIdentifier<'_>) -> Option<u16> {
        self.0.get_supported_module_version(m)
    }
}

#[derive(Default)]
pub struct HsTap<H>(H);
impl<H: Handler<TestApp>> Handler<TestApp> for HsTap<H> {
    fn handle<D: Dispatch<TestApp>>(
        &self,
        m: &msg::Message,
        conn: &mut Connection<TestApp, D>,
    ) -> Result<(), HandlerError> {
        let (t, a) = unpack(m);
        conn.dispatch().application().ev(Ev::HsSeen(t, a));
        self.0.handle(m, conn)
    }
    fn handle_error<D: Dispatch<TestApp>>(&self, e: &msg::ParseError, conn: &mut Connection<TestApp, D>) {
        show_error(e);
        conn.dispatch().application().ev(Ev::ParseError("hs-outer", e.kind.to_string(), e.offset));
        self.0.handle_error(e, conn)
    }
}
impl<H: HandshakeHandler<TestApp>> HandshakeHandler<TestApp> for HsTap<H> {}

#[derive(Default)]
pub struct HsInner<H>(H);
impl<H: Handler<TestApp>> Handler<TestApp> for HsInner<H> {
    fn handle<D: Dispatch<TestApp>>(
        &self,
        m: &msg::Message,
        conn: &mut Connection<TestApp, D>,
    ) -> Result<(), HandlerError> {
        let (t, a) = unpack(m);
        conn.dispatch().application().ev(Ev::HsInner(t, a));
        self.0.handle(m, conn)
    }
    fn handle_error<D: Dispatch<TestApp>>(&self, e: &msg::ParseError, conn: &mut Connection<TestApp, D>) {
        show_error(e);
        conn.dispatch().application().ev(Ev::ParseError("hs-inner", e.kind.to_string(), e.offset));
        self.0.handle_error(e, conn)
    }
}
impl<H: HandshakeHandler<TestApp>> HandshakeHandler<TestApp> for HsInner<H> {}

/// A message made of arbitrary items.
pub struct Items<'a>(pub &'a str, pub Vec<&'a [u8]>);
impl<'a> msg::EncodeMessage for Items<'a> {
    fn encode(&self, buf: &mut [u8]) -> Result<usize, msg::BufferTooSmallError> {
        let mut f = msg::MessageFormatter::new(buf, self.0, self.1.len());
        for a in &self.1 {
            f.add_argument(*a);
        }
        f.finalize()
    }
}
#[allow(dead_code)]
fn _assert_encodable(a: &[u8]) -> usize {
    a.get_size()
}

/// The application's own message handler, behind core::MessageHandler in the chain.
#[derive(Default)]
pub struct TestModule<H>(H);
impl<H: Handler<TestApp>> Handler<TestApp> for TestModule<H> {
    fn handle<D: Dispatch<TestApp>>(
        &self,
        m: &msg::Message,
        conn: &mut Connection<TestApp, D>,
    ) -> Result<(), HandlerError> {
        let (t, a) = unpack(m);
        conn.dispatch().application().ev(Ev::Inner(t.clone(), a.clone()));
        let member = match t.strip_prefix("test1.") {
            Some(x) => x,
            None => return self.0.handle(m, conn),
        };
        let args: Vec<&[u8]> = a.iter().map(|b| &b.0[..]).collect();
        match member {
            "echo" => {
                let d = conn.dispatch();
                let cmd = d.application().0.on_echo.lock().unwrap_or_else(|e| e.into_inner()).clone();
                if let Some(c) = cmd {
                    c(&a);
                }
                conn.enqueue_message(&Items("test1.echoed", args))
            }
            "echo-twice" => {
                conn.enqueue_message(&Items("test1.first", args.clone()));
                if conn.state().can_receive_messages() {
                    conn.enqueue_message(&Items("test1.second", args));
                }
            }
            "silent" => {}
            "hook" => {
                let d = conn.dispatch();
                let cmd = d.application().0.cmd.lock().unwrap_or_else(|e| e.into_inner()).clone();
                if let Some(c) = cmd {
                    c(&a);
                }
            }
            "invalid" => return Err(HandlerError::InvalidMessage),
            "cast" => {
                let from = match conn.state() {
                    ConnectionState::Msgio(c) => c.0.client_id().as_str().to_string(),
                    _ => return Err(HandlerError::InvalidMessage),
                };
                let a = a.clone();
                conn.dispatch().enqueue_broadcast(Box::new(move |conn| {
                    let other = match conn.state() {
                        ConnectionState::Msgio(c) => c.0.client_id().as_str() != from,
                        _ => false,
                    };
                    if other {
                        let args: Vec<&[u8]> = a.iter().map(|b| &b.0[..]).collect();
                        conn.enqueue_message(&Items("test1.casted", args));
                    }
                }));
            }
            "die" => conn.set_state(ConnectionState::Teardown),
            "die-invalid" => {
                conn.set_state(ConnectionState::Teardown);
                return Err(HandlerError::InvalidMessage);
            }
            "die-unknown" => {
                conn.set_state(ConnectionState::Teardown);
                return Err(HandlerError::UnknownMessageType);
            }
            "echo-die" => {
                conn.enqueue_message(&Items("test1.echoed", args));
                conn.set_state(ConnectionState::Teardown);
            }
            "to-stdout" => conn.set_state(ConnectionState::Stdout(OutConn(ScreenIdentity::new("switched")))),
            "to-stdin-invalid" => {
                conn.set_state(ConnectionState::Stdin(ScreenIdentity::new("switched")));
                return Err(HandlerError::InvalidMessage);
            }
            "to-handshake" => conn.set_state(ConnectionState::Handshake),
            _ => return self.0.handle(m, conn),
        }
        Ok(())
    }
    fn handle_error<D: Dispatch<TestApp>>(&self, e: &msg::ParseError, conn: &mut Connection<TestApp, D>) {
        show_error(e);
        conn.dispatch().application().ev(Ev::ParseError("inner", e.kind.to_string(), e.offset));
        self.0.handle_error(e, conn)
    }
}
/// The version of a module that the application's handler supports: about half of all names.
pub fn own_module(name: &str) -> Option<u16> {
    match name {
        "test1" => Some(7),
        "limit65535" => Some(65535),
        "core1" => Some(99),
        "posix1" => Some(98),
        "core2" => Some(0),
        "posix2" => Some(5),
        "core10" => Some(1),
        "test2" | "core" | "foo1" => None,
        _ => {
            let h = name.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
            (h >> 40 & 1 == 1).then_some((h >> 20) as u16)
        }
    }
}

impl<H: MessageHandler<TestApp>> MessageHandler<TestApp> for TestModule<H> {
    fn get_supported_module_version(&self, m: &ModuleIdentifier<'_>) -> Option<u16> {
        // (those of core1 and posix1 are never asked for: they belong to core::MessageHandler, which stands before us)
        own_module(m.as_str()).or_else(|| self.0.get_supported_module_version(m))
    }
}
impl<H: MessageHandler<TestApp>> core::MessageHandlerExt<TestApp> for TestModule<H> {}

// ---------------------------------------------------------------------------------------------------------
// in-memory dispatch

pub type MConn = Connection<TestApp, MockDispatch>;
type Cast = Box<dyn Fn(&mut MConn) + Send + Sync>;

pub struct MockShared {
    app: TestApp,
    out: Mutex<BTreeMap<u64, Vec<u8>>>,
    queue: Mutex<Vec<Cast>>,
}
#[derive(Clone)]
pub struct MockDispatch(Arc<MockShared>);
impl MockDispatch {
    pub fn sent(&self, conn: u64) -> Vec<u8> {
        self.0.out.lock().unwrap().get(&conn).cloned().unwrap_or_default()
    }
}

impl Dispatch<TestApp> for MockDispatch {
    type ConnectionID = u64;
    fn application(&self) -> &TestApp {
        &self.0.app
    }
    fn enqueue_broadcast(&self, action: Cast) {
        self.0.queue.lock().unwrap().push(action)
    }
    fn enqueue_message<M: msg::EncodeMessage>(&self, conn: &mut MConn, m: &M) {
        if !conn.state().can_receive_messages() {
            self.0.app.ev(Ev::Bad(format!("enqueue_message() in state {}", conn.state().type_name())));
            return;
        }
        let mut buf = [0u8; 4072];
        match m.encode(&mut buf) {
            Ok(n) => self.0.out.lock().unwrap().entry(conn.id()).or_default().extend_from_slice(&buf[..n]),
            // as documented for the Tokio dispatch
            Err(_) => conn.set_state(ConnectionState::Teardown),
        }
    }
    fn enqueue_stdin(&self, conn: &mut MConn, data: &[u8]) {
        if !conn.state().can_receive_stdin() {
            self.0.app.ev(Ev::Bad(format!("enqueue_stdin() in state {}", conn.state().type_name())));
            return;
        }
        self.0.out.lock().unwrap().entry(conn.id()).or_default().extend_from_slice(data);
    }
}

pub struct TestBuf {
    data: Vec<u8>,
    calls: std::cell::Cell<u64>,
    budget: u64,
    pub bad: Option<String>,
}
impl TestBuf {
    fn new() -> TestBuf {
        TestBuf { data: vec![], calls: std::cell::Cell::new(0), budget: 0, bad: None }
    }
}
impl ReceiveBuffer for TestBuf {
    fn contents(&self) -> &[u8] {
        self.calls.set(self.calls.get() + 1);
        if self.calls.get() > self.budget {
            panic!("receive buffer accessed {} times for {} bytes: no progress", self.calls.get(), self.data.len());
        }
        &self.data
    }
    fn discard(&mut self, len: usize) {
        if len > self.data.len() {
            self.bad = Some(format!("discard({}) with {} bytes in the buffer", len, self.data.len()));
            self.data.clear();
        } else {
            self.data.drain(..len);
        }
    }
}

/// State of the world after one step, as seen from outside.
#[derive(Clone, Debug, Default)]
pub struct Snap {
    /// Everything sent to each connection so far.
    pub out: BTreeMap<usize, Vec<u8>>,
    /// State of each connection that has been opened ("Teardown" when dead).
    pub state: BTreeMap<usize, String>,
    pub left: BTreeMap<usize, Vec<u8>>,
    pub log: Vec<Ev>,
    pub clients: Vec<(String, Screens)>,
}

/// A step with everything symbolic resolved.
#[derive(Clone, Debug)]
pub enum Step {
    Open,
    Send(usize, Vec<u8>),
    Close(usize),
}

pub trait World {
    fn app(&self) -> TestApp;
    fn step(&mut self, s: &Step) -> Result<Snap, String>;
    fn conns(&self) -> usize;
}

pub struct MockWorld {
    d: MockDispatch,
    conns: Vec<Option<(MConn, TestBuf)>>,
    /// connections that were torn down stay here to check that they stay dead
    pub feed_dead: bool,
}
impl MockWorld {
    pub fn new(s: &Setup) -> MockWorld {
        let app = TestApp::new(s);
        CURRENT_APP.with(|a| *a.borrow_mut() = Some(app.clone()));
        MockWorld {
            d: MockDispatch(Arc::new(MockShared {
                app,
                out: Mutex::new(BTreeMap::new()),
                queue: Mutex::new(vec![]),
            })),
            conns: vec![],
            feed_dead: true,
        }
    }
    pub fn dispatch(&self) -> MockDispatch {
        self.d.clone()
    }
    fn run_queue(&mut self) {
        loop {
            let q = std::mem::take(&mut *self.d.0.queue.lock().unwrap());
            if q.is_empty() {
                return;
            }
            for b in q {
                for c in self.conns.iter_mut().flatten() {
                    if !matches!(c.0.state(), ConnectionState::Teardown) {
                        b(&mut c.0);
                    }
                }
            }
        }
    }
}
impl World for MockWorld {
    fn app(&self) -> TestApp {
        self.d.0.app.clone()
    }
    fn conns(&self) -> usize {
        self.conns.len()
    }
    fn step(&mut self, s: &Step) -> Result<Snap, String> {
        match s {
            Step::Open => {
                let id = self.conns.len() as u64;
                self.conns.push(Some((Connection::new(self.d.clone(), id), TestBuf::new())));
            }
            Step::Close(i) => self.conns[*i] = None,
            Step::Send(i, bytes) => {
                if let Some((conn, buf)) = &mut self.conns[*i] {
                    buf.data.extend_from_slice(bytes);
                    buf.calls.set(0);
                    // every iteration consumes a byte at least and has a bounded number of accesses
                    buf.budget = 200 + 40 * buf.data.len() as u64;
                    conn.handle_incoming(buf);
                    if let Some(b) = buf.bad.take() {
                        return Err(b);
                    }
                }
                self.run_queue();
            }
        }
        let mut snap = Snap { log: self.d.0.app.take_log(), clients: self.d.0.app.registered(), ..Default::default() };
        for (i, c) in self.conns.iter().enumerate() {
            match c {
                None => {
                    snap.state.insert(i, "Teardown".into());
                }
                Some((c, b)) => {
                    let st = describe_state(c.state());
                    if st != "Teardown" {
                        snap.left.insert(i, b.data.clone());
                    }
                    snap.state.insert(i, st);
                }
            }
            snap.out.insert(i, self.d.0.out.lock().unwrap().get(&(i as u64)).cloned().unwrap_or_default());
        }
        Ok(snap)
    }
}

// ---------------------------------------------------------------------------------------------------------
// reference model

#[derive(Clone, Debug, PartialEq, Eq)]
enum Mode {
    Handshake,
    Msgio(String, Screens),
    Stdin(String),
    Stdout(String),
    Dead,
}

pub struct Model {
    clients: Vec<(String, Screens, String, bool)>,
    screens: Vec<(ScreenSpec, bool, bool)>,
    conns: Vec<(Mode, Vec<u8>, Vec<u8>)>,
    log: Vec<Ev>,
    casts: Vec<MCast>,
    /// secrets issued by the real application, in order of registration
    pub issued: Vec<String>,
    registrations: usize,
    pub missing_secret: bool,
    /// without the application's own handler for test1
    pub bare: bool,
}
enum MCast {
    End(String),
    Cast(String, Vec<B>),
}

fn utf8(b: &[u8]) -> Option<String> {
    String::from_utf8(b.to_vec()).ok()
}

impl Model {
    pub fn new(s: &Setup) -> Model {
        Model {
            clients: s.clients.iter().map(|c| (c.id.clone(), c.scr.clone(), c.secret.clone(), false)).collect(),
            screens: s.screens.iter().map(|c| (c.clone(), false, false)).collect(),
            conns: vec![],
            log: vec![],
            casts: vec![],
            issued: vec![],
            registrations: 0,
            missing_secret: false,
            bare: false,
        }
    }

    pub fn is_dead(&self, i: usize) -> bool {
        self.conns[i].0 == Mode::Dead
    }
    pub fn mode_name(&self, i: usize) -> &'static str {
        match self.conns[i].0 {
            Mode::Handshake => "Handshake",
            Mode::Msgio(..) => "Msgio",
            Mode::Stdin(_) => "Stdin",
            Mode::Stdout(_) => "Stdout",
            Mode::Dead => "Teardown",
        }
    }
    pub fn conns(&self) -> usize {
        self.conns.len()
    }
    /// ID of the client a message connection belongs to
    pub fn client_of(&self, i: usize) -> Option<String> {
        match &self.conns[i].0 {
            Mode::Msgio(id, _) => Some(id.clone()),
            _ => None,
        }
    }

    pub fn step(&mut self, s: &Step) -> Snap {
        match s {
            Step::Open => self.conns.push((Mode::Handshake, vec![], vec![])),
            Step::Close(i) => self.conns[*i].0 = Mode::Dead,
            Step::Send(i, b) => {
                self.conns[*i].1.extend_from_slice(b);
                self.consume(*i);
                for c in std::mem::take(&mut self.casts) {
                    for k in 0..self.conns.len() {
                        if let Mode::Msgio(id, _) = self.conns[k].0.clone() {
                            match &c {
                                MCast::End(e) if id.starts_with(e.as_str()) => self.conns[k].0 = Mode::Dead,
                                MCast::Cast(from, a) if id != *from => {
                                    let mut items: Vec<&[u8]> = vec![b"test1.casted"];
                                    items.extend(a.iter().map(|b| &b.0[..]));
                                    self.send(k, &items);
                                }
                                _ => {}
                            }
                        }
                    }
                }
            }
        }
        let mut snap = Snap { log: std::mem::take(&mut self.log), ..Default::default() };
        snap.clients = self.clients.iter().map(|c| (c.0.clone(), c.1.clone())).collect();
        snap.clients.sort();
        for (i, (m, buf, out)) in self.conns.iter().enumerate() {
            let st = match m {
                Mode::Handshake => "Handshake".into(),
                Mode::Msgio(id, scr) => format!("Msgio {}", describe_client(id, scr)),
                Mode::Stdin(s) => format!("Stdin {}", s),
                Mode::Stdout(s) => format!("Stdout {}", s),
                Mode::Dead => "Teardown".to_string(),
            };
            snap.state.insert(i, st);
            if *m != Mode::Dead {
                snap.left.insert(i, buf.clone());
            }
            snap.out.insert(i, out.clone());
        }
        snap
    }

    fn ev(&mut self, e: Ev) {
        push_ev(&mut self.log, e)
    }

    fn send(&mut self, i: usize, items: &[&[u8]]) {
        let wire = ref_format(items);
        if wire.len() > 1024 {
            self.conns[i].0 = Mode::Dead;
        } else {
            self.conns[i].2.extend_from_slice(&wire);
        }
    }

    fn consume(&mut self, i: usize) {
        loop {
            let buf = self.conns[i].1.clone();
            if buf.is_empty() {
                return;
            }
            let handshake = self.conns[i].0 == Mode::Handshake;
            match self.conns[i].0.clone() {
                Mode::Dead => return,
                Mode::Stdin(_) => {
                    self.ev(Ev::DiscardedAtEnd(B(buf)));
                    self.conns[i].0 = Mode::Dead;
                }
                Mode::Stdout(s) => {
                    self.ev(Ev::Stdout(s, B(buf)));
                    self.conns[i].1.clear();
                }
                Mode::Handshake | Mode::Msgio(..) => match ref_parse(&buf) {
                    Verdict::Err { kind, .. } if kind == EOF => return,
                    Verdict::Err { kind, offset } => {
                        let n = 1 + buf[1..].iter().position(|&b| b == b'{').unwrap_or(buf.len() - 1);
                        let (o, n2) = if handshake { ("hs-outer", "hs-inner") } else { ("outer", "inner") };
                        self.ev(Ev::ParseError(o, kind.into(), offset));
                        self.ev(Ev::ParseError(n2, kind.into(), offset));
                        if handshake {
                            self.conns[i].0 = Mode::Dead;
                            self.ev(Ev::DiscardedAtEnd(B(buf[..n].to_vec())));
                        } else {
                            self.ev(Ev::Discarded(B(buf[..n].to_vec())));
                        }
                        self.conns[i].1.drain(..n);
                    }
                    Verdict::Msg { items, len } => {
                        let ty = utf8(&buf[items[0].0..items[0].1]).unwrap();
                        let args: Vec<B> = items[1..].iter().map(|r| B(buf[r.0..r.1].to_vec())).collect();
                        self.conns[i].1.drain(..len);
                        if handshake {
                            self.handshake(i, &ty, &args);
                        } else {
                            self.message(i, &ty, &args);
                        }
                    }
                },
            }
        }
    }

    fn handshake(&mut self, i: usize, ty: &str, args: &[B]) {
        self.ev(Ev::HsSeen(ty.into(), args.to_vec()));
        self.conns[i].0 = Mode::Dead; // unless...
        if !["posix1.client-hello", "posix1.stdin-hello", "posix1.stdout-hello"].contains(&ty) {
            self.ev(Ev::HsInner(ty.into(), args.to_vec()));
            return;
        }
        let secret = match args {
            [a] => match utf8(a) {
                Some(s) => s,
                None => return,
            },
            _ => return,
        };
        match ty {
            "posix1.client-hello" => {
                if let Some(c) = self.clients.iter_mut().find(|c| c.2 == secret && !c.3) {
                    c.3 = true;
                    let (id, scr) = (c.0.clone(), c.1.clone());
                    self.ev(Ev::Authorized("client", describe_client(&id, &scr)));
                    self.conns[i].0 = Mode::Msgio(id.clone(), scr.clone());
                    self.send(
                        i,
                        &[b"posix1.server-hello", id.as_bytes(), scr[0].as_bytes(), scr[1].as_bytes(), scr[2].as_bytes()],
                    );
                }
            }
            "posix1.stdin-hello" => {
                if let Some(s) = self.screens.iter_mut().find(|s| s.0.stdin == secret && !s.1) {
                    s.1 = true;
                    let id = s.0.id.clone();
                    self.ev(Ev::Authorized("stdin", id.clone()));
                    self.conns[i].0 = Mode::Stdin(id);
                }
            }
            _ => {
                if let Some(s) = self.screens.iter_mut().find(|s| s.0.stdout == secret && !s.2) {
                    s.2 = true;
                    let id = s.0.id.clone();
                    self.ev(Ev::Authorized("stdout", id.clone()));
                    self.conns[i].0 = Mode::Stdout(id);
                }
            }
        }
    }

    fn have(&mut self, i: usize, module: &str) {
        let version = match module {
            "core1" | "posix1" => Some(0),
            _ if self.bare => None,
            _ => own_module(module),
        };
        let text = match version {
            Some(v) => format!("{}.{}", module, v),
            None => module.to_string(),
        };
        self.send(i, &[b"have", text.as_bytes()])
    }

    fn message(&mut self, i: usize, ty: &str, args: &[B]) {
        let me = match &self.conns[i].0 {
            Mode::Msgio(id, _) => id.clone(),
            _ => unreachable!(),
        };
        self.ev(Ev::Seen(ty.into(), args.to_vec()));
        match ty {
            "want" => match args {
                [m] if is_module(m) => {
                    let m = utf8(m).unwrap();
                    self.have(i, &m)
                }
                _ => self.send(i, &[b"nope", b"want"]),
            },
            "core1.client-make" => {
                let ok = args.len() == 4 && is_client_id(&args[0]) && args[1..].iter().all(|a| utf8(a).is_some());
                let id = args.first().and_then(|a| utf8(a)).unwrap_or_default();
                let below = id.starts_with(&me) && id != me;
                let in_use = self.clients.iter().any(|c| c.0.starts_with(&id));
                if !ok || !below || in_use {
                    return self.send(i, &[b"nope", ty.as_bytes()]);
                }
                let scr = [utf8(&args[1]).unwrap(), utf8(&args[2]).unwrap(), utf8(&args[3]).unwrap()];
                let secret = match self.issued.get(self.registrations) {
                    Some(s) => s.clone(),
                    None => {
                        self.missing_secret = true;
                        String::new()
                    }
                };
                self.registrations += 1;
                self.ev(Ev::Registered(id.clone(), scr.clone()));
                self.clients.push((id, scr, secret.clone(), false));
                self.send(i, &[b"core1.client-new", secret.as_bytes()]);
            }
            "core1.client-end" => {
                let ok = args.len() == 1 && is_client_id(&args[0]);
                let id = args.first().and_then(|a| utf8(a)).unwrap_or_default();
                if !ok || !id.starts_with(&me) || id == me {
                    return self.send(i, &[b"nope", ty.as_bytes()]);
                }
                self.clients.retain(|c| !c.0.starts_with(&id));
                self.casts.push(MCast::End(id));
            }
            "posix1.stdin-hello" | "posix1.stdout-hello" | "posix1.client-hello" => {
                self.send(i, &[b"nope", ty.as_bytes()])
            }
            _ => {
                self.ev(Ev::Inner(ty.into(), args.to_vec()));
                let mut items: Vec<&[u8]> = vec![b"test1.echoed"];
                items.extend(args.iter().map(|a| &a.0[..]));
                let key = if self.bare { "" } else { ty };
                match key {
                    "test1.echo" => self.send(i, &items),
                    "test1.echo-twice" => {
                        items[0] = b"test1.first";
                        self.send(i, &items);
                        if self.conns[i].0 != Mode::Dead {
                            items[0] = b"test1.second";
                            self.send(i, &items);
                        }
                    }
                    "test1.silent" | "test1.hook" => {}
                    "test1.invalid" => self.send(i, &[b"nope", ty.as_bytes()]),
                    "test1.cast" => self.casts.push(MCast::Cast(me, args.to_vec())),
                    "test1.die" | "test1.die-invalid" | "test1.die-unknown" => self.conns[i].0 = Mode::Dead,
                    "test1.echo-die" => {
                        self.send(i, &items);
                        self.conns[i].0 = Mode::Dead;
                    }
                    "test1.to-stdout" => self.conns[i].0 = Mode::Stdout("switched".into()),
                    "test1.to-stdin-invalid" => self.conns[i].0 = Mode::Stdin("switched".into()),
                    "test1.to-handshake" => self.conns[i].0 = Mode::Handshake,
                    _ => match split_scoped(ty.as_bytes()) {
                        Some((module, _)) => {
                            let m = utf8(module).unwrap();
                            self.have(i, &m)
                        }
                        None => self.send(i, &[b"nope", ty.as_bytes()]),
                    },
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------------------
// histories

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Sec {
    Client(u8),
    Stdin(u8),
    Stdout(u8),
    /// the k-th secret issued during the history
    Made(u8),
    Text(String),
    /// a text that is nearly a valid secret
    Near(Box<Sec>, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Piece {
    Hello(u8, Sec),
    /// hello with additional arguments
    HelloArgs(u8, Sec, Vec<B>),
    Make(String, Screens),
    End(String),
    /// client ID relative to the identity of the sender's client: sender's ID + suffix
    MakeBelow(String, Screens),
    EndBelow(String),
    M(Msg),
    Raw(B),
    /// only the first so many (of 256 parts) bytes of the piece
    Trunc(Box<Piece>, u8),
    Edited(Box<Piece>, Vec<Edit>),
    /// so many times
    Repeat(Box<Piece>, u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Open,
    /// connection (modulo number), pieces sent at once
    Send(u8, Vec<Piece>),
    Close(u8),
}

pub const HELLOS: [&str; 3] = ["posix1.client-hello", "posix1.stdin-hello", "posix1.stdout-hello"];

fn near(s: &str, how: u8) -> String {
    let c: Vec<char> = s.chars().collect();
    let n = c.len();
    let sub = |from: usize, to: usize| c[from.min(n)..to.max(from).min(n)].iter().collect::<String>();
    match how % 14 {
        0 => String::new(),
        1 => sub(0, n.saturating_sub(1)),
        2 => sub(0, 1),
        3 => sub(0, (how as usize * 7) % (n + 1)),
        4 => sub(1, n),
        5 => sub((how as usize * 7) % (n + 1), n),
        6 => format!("{}{}", s, if how & 16 == 0 { "A" } else { "\n" }),
        7 => format!("{}{}", if how & 16 == 0 { " " } else { "A" }, s),
        8 => s.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        9 => format!("{}\0", s),
        10 => format!("{}{}", s, s),
        11 => s.chars().rev().collect(),
        12 => format!("{} ", s),
        // one character replaced
        _ => {
            let mut c = c.clone();
            if n > 0 {
                let k = how as usize * 5 % n;
                c[k] = if c[k] == 'x' { 'y' } else { 'x' };
            }
            c.into_iter().collect()
        }
    }
}

pub struct Resolver<'a> {
    pub setup: &'a Setup,
    pub made: Vec<String>,
    /// client ID of the connection the piece is sent on, if it has one
    pub me: Option<String>,
}
impl<'a> Resolver<'a> {
    fn secret(&self, s: &Sec) -> String {
        fn at<T>(v: &[T], i: u8) -> Option<&T> {
            if v.is_empty() {
                None
            } else {
                v.get(i as usize % v.len())
            }
        }
        match s {
            Sec::Client(i) => at(&self.setup.clients, *i).map(|c| c.secret.clone()).unwrap_or_default(),
            Sec::Stdin(i) => at(&self.setup.screens, *i).map(|c| c.stdin.clone()).unwrap_or_default(),
            Sec::Stdout(i) => at(&self.setup.screens, *i).map(|c| c.stdout.clone()).unwrap_or_default(),
            Sec::Made(i) => at(&self.made, *i).cloned().unwrap_or("none-made-yet".into()),
            Sec::Text(t) => t.clone(),
            Sec::Near(s, how) => near(&self.secret(s), *how),
        }
    }
    pub fn piece(&self, p: &Piece) -> Vec<u8> {
        let me = self.me.clone().unwrap_or_default();
        let make = |id: &str, s: &Screens| {
            ref_format(&[b"core1.client-make", id.as_bytes(), s[0].as_bytes(), s[1].as_bytes(), s[2].as_bytes()])
        };
        match p {
            Piece::Hello(k, s) => {
                ref_format(&[HELLOS[*k as usize % 3].as_bytes(), self.secret(s).as_bytes()])
            }
            Piece::HelloArgs(k, s, more) => {
                let sec = self.secret(s);
                let mut v: Vec<&[u8]> = vec![HELLOS[*k as usize % 3].as_bytes(), sec.as_bytes()];
                v.extend(more.iter().map(|b| &b.0[..]));
                ref_format(&v)
            }
            Piece::Make(id, s) => make(id, s),
            Piece::MakeBelow(suf, s) => make(&format!("{}{}", me, suf), s),
            Piece::End(id) => ref_format(&[b"core1.client-end", id.as_bytes()]),
            Piece::EndBelow(suf) => ref_format(&[b"core1.client-end", format!("{}{}", me, suf).as_bytes()]),
            Piece::M(m) => m.wire(),
            Piece::Raw(b) => b.0.clone(),
            Piece::Trunc(p, n) => {
                let v = self.piece(p);
                let k = v.len() * (*n as usize) / 256;
                v[..k].to_vec()
            }
            Piece::Repeat(p, n) => self.piece(p).repeat(*n as usize),
            Piece::Edited(p, e) => {
                let mut v = self.piece(p);
                apply_edits(&mut v, e);
                v
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    pub setup: Setup,
    pub ops: Vec<Op>,
}

/// Which observations a check compares.
#[derive(Clone, Copy, Default)]
pub struct Aspects {
    /// exact bytes sent to every connection
    pub out: bool,
    /// only whether anything was sent in this step to the connection
    pub silence: bool,
    pub state: bool,
    pub left: bool,
    pub clients: bool,
    pub auth: bool,
    pub registered: bool,
    pub seen: bool,
    pub inner: bool,
    pub hs: bool,
    pub stdout: bool,
    pub discards: bool,
    pub parse_errors: bool,
    /// the real transport may cut a step into several reads and loses what was queued at teardown
    pub transport: bool,
    /// send only on connections that are still in the handshake
    pub only_handshake: bool,
}

pub fn relevant(e: &Ev, a: &Aspects) -> bool {
    match e {
        Ev::Bad(_) => true,
        Ev::Step(_) => true,
        Ev::Opened | Ev::Closed | Ev::IoError => false,
        Ev::Discarded(_) | Ev::DiscardedAtEnd(_) => a.discards,
        Ev::Authorized(..) => a.auth,
        Ev::Registered(..) => a.registered,
        Ev::Stdout(..) => a.stdout,
        Ev::Seen(..) => a.seen,
        Ev::Inner(..) => a.inner,
        Ev::HsSeen(..) | Ev::HsInner(..) => a.hs,
        Ev::ParseError(..) => a.parse_errors && !a.transport,
    }
}

fn filter_log(log: &[Ev], a: &Aspects) -> Vec<Ev> {
    let mut v = vec![];
    for e in log {
        if relevant(e, a) {
            push_ev(&mut v, e.clone());
        }
    }
    v
}

pub fn compare_logs(real: &[Ev], model: &[Ev], a: &Aspects) -> Res {
    let r = filter_log(real, a);
    let m = filter_log(model, a);
    // a DiscardedAtEnd of the model may follow a Discarded in the same step; the real side merges them
    let mut ri = 0;
    let mut mi = 0;
    while ri < r.len() || mi < m.len() {
        match (r.get(ri), m.get(mi)) {
            (Some(Ev::Discarded(got)), Some(Ev::Discarded(d))) if matches!(m.get(mi + 1), Some(Ev::DiscardedAtEnd(_))) => {
                let end = match &m[mi + 1] {
                    Ev::DiscardedAtEnd(x) => x,
                    _ => unreachable!(),
                };
                let mut all = d.0.clone();
                all.extend_from_slice(end);
                ensure!(
                    got.0 == all || (a.transport && all.starts_with(got) && got.len() > d.len()),
                    "discarded {:?}, expected {:?}", got, B(all)
                );
                ri += 1;
                mi += 2;
            }
            (Some(Ev::Discarded(got)), Some(Ev::DiscardedAtEnd(d))) => {
                ensure!(
                    got == d || (a.transport && d.starts_with(got) && !got.is_empty()),
                    "discarded {:?}, expected {:?}", got, d
                );
                ri += 1;
                mi += 1;
            }
            (x, y) => {
                ensure!(x == y, "the application saw {:?}, expected {:?} (whole step: {:?}, expected {:?})", x, y, r, m);
                ri += 1;
                mi += 1;
            }
        }
    }
    Ok(())
}

pub fn compare(real: &Snap, model: &Snap, prev: Option<&(Snap, Snap)>, sure: &BTreeMap<usize, usize>, a: &Aspects) -> Res {
    compare_logs(&real.log, &model.log, a)?;
    if a.state {
        ensure_eq!(real.state, model.state, "connection states");
    }
    if a.left && !a.transport {
        ensure_eq!(real.left, model.left, "unprocessed bytes in the receive buffers");
    }
    if a.clients {
        ensure_eq!(real.clients, model.clients, "registered clients");
    }
    let empty = vec![];
    for (i, want) in &model.out {
        let got = real.out.get(i).unwrap_or(&empty);
        if a.out {
            let dead = model.state[i] == "Teardown";
            if a.transport && dead {
                // replies queued in the very step that tears the connection down may be lost
                let before = sure.get(i).copied().unwrap_or(0);
                ensure!(
                    want.starts_with(got) && got.len() >= before,
                    "connection {} was sent {:?}, expected {:?}", i, B(got.clone()), B(want.clone())
                );
            } else {
                ensure!(got == want, "connection {} was sent {:?}, expected {:?}", i, B(got.clone()), B(want.clone()));
            }
        } else if a.silence {
            let (rb, mb) = match prev {
                Some((r, m)) => (r.out.get(i).map_or(0, |o| o.len()), m.out.get(i).map_or(0, |o| o.len())),
                None => (0, 0),
            };
            if want.len() == mb {
                ensure!(got.len() == rb, "connection {} was sent {:?}, expected nothing", i, B(got[rb..].to_vec()));
            }
        }
    }
    Ok(())
}

/// Runs a history against a world and the model; `each` sees every step.
pub fn run_history(
    w: &mut dyn World,
    h: &History,
    a: &Aspects,
    each: &mut dyn FnMut(&Step, &Snap, &Snap, &Model) -> Res,
) -> Res {
    let mut model = Model::new(&h.setup);
    let mut prev: Option<(Snap, Snap)> = None;
    // how much each connection was certainly sent while it was alive
    let mut sure: BTreeMap<usize, usize> = BTreeMap::new();
    for (n, op) in h.ops.iter().enumerate() {
        let count = w.conns();
        let step = match op {
            Op::Open => Step::Open,
            _ if count == 0 => continue,
            Op::Close(c) => Step::Close(*c as usize % count),
            Op::Send(c, pieces) => {
                let i = *c as usize % count;
                if a.only_handshake && model.conns[i].0 != Mode::Handshake {
                    continue;
                }
                let me = match &model.conns[i].0 {
                    Mode::Msgio(id, _) => Some(id.clone()),
                    _ => None,
                };
                let r = Resolver { setup: &h.setup, made: w.app().lock().made.clone(), me };
                let mut bytes = vec![];
                for p in pieces {
                    bytes.extend_from_slice(&r.piece(p));
                }
                if bytes.is_empty() {
                    continue;
                }
                Step::Send(i, bytes)
            }
        };
        let at = |e: String| format!("step {} ({}): {}", n, show_step(&step), e);
        let real = w.step(&step).map_err(at)?;
        model.issued = w.app().lock().made.clone();
        let want = model.step(&step);
        if model.missing_secret && (a.registered || a.clients || a.out) {
            return Err(at("a client that should have been registered was not".into()));
        }
        compare(&real, &want, prev.as_ref(), &sure, a).map_err(at)?;
        each(&step, &real, &want, &model).map_err(at)?;
        for (i, o) in &want.out {
            if want.state[i] != "Teardown" {
                sure.insert(*i, o.len());
            }
        }
        prev = Some((real, want));
    }
    Ok(())
}

pub fn show_step(s: &Step) -> String {
    match s {
        Step::Open => "open".into(),
        Step::Close(i) => format!("close {}", i),
        Step::Send(i, b) => format!("send {} b\"{}\"", i, String::from_utf8_lossy(&b[..b.len().min(300)]).escape_debug()),
    }
}
