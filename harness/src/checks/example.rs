//! C28: the example server, as a process, against the reference server model.

use crate::checks::server::*;
use crate::fw::*;
use crate::gen::*;
use crate::lit::lit_size;
use crate::refmodel::*;
use crate::srv::*;
use crate::tok::Client;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::os::unix::net::UnixStream;
use std::os::unix::process::CommandExt;
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

const TEXT: &[u8] = b"Hello stdin.\n";
const PATIENCE: Duration = Duration::from_secs(60);

struct Server {
    child: Child,
    started: Instant,
    dir: PathBuf,
    socket: PathBuf,
    log: PathBuf,
    setup: Setup,
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

/// (thread, state, CPU time, context switches) of all threads of a process
fn threads(pid: u32) -> Vec<(String, char, u64, u64)> {
    let mut v = vec![];
    if let Ok(rd) = std::fs::read_dir(format!("/proc/{}/task", pid)) {
        for e in rd.flatten() {
            let read = |n: &str| std::fs::read_to_string(e.path().join(n)).unwrap_or_default();
            let stat = read("stat");
            let rest = match stat.rfind(')') {
                Some(k) if k + 2 < stat.len() => &stat[k + 2..],
                _ => continue,
            };
            let f: Vec<&str> = rest.split(' ').collect();
            let cpu = f[11].parse::<u64>().unwrap_or(0) + f[12].parse::<u64>().unwrap_or(0);
            let sw = read("status")
                .lines()
                .filter(|l| l.contains("voluntary_ctxt_switches"))
                .filter_map(|l| l.split_whitespace().last()?.parse::<u64>().ok())
                .sum();
            v.push((e.file_name().to_string_lossy().into(), f[0].chars().next().unwrap_or('?'), cpu, sw));
        }
    }
    v.sort();
    v
}

/// Is there a moment at which all threads of the process sleep?
fn at_rest(pid: u32) -> bool {
    let a = threads(pid);
    if a.is_empty() || a.iter().any(|t| t.1 != 'S') {
        return false;
    }
    a == threads(pid)
}

/// All well-formed messages in a text.
fn messages_in(text: &[u8]) -> Vec<Vec<Vec<u8>>> {
    let mut v = vec![];
    let mut i = 0;
    while i < text.len() {
        match ref_parse(&text[i..]) {
            Verdict::Msg { items, len } => {
                v.push(items.iter().map(|r| text[i + r.0..i + r.1].to_vec()).collect());
                i += len;
            }
            _ => i += 1,
        }
    }
    v
}

impl Server {
    fn start() -> Result<Server, String> {
        let dir = scratch_dir().join("x");
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).unwrap();
        let log = dir.join("log");
        let file = std::fs::File::create(&log).unwrap();
        let exe = std::env::var_os("VT6CHECK_EXAMPLE").expect("VT6CHECK_EXAMPLE");
        let mut c = Command::new(exe);
        c.env_clear().env("XDG_RUNTIME_DIR", &dir).env("RUST_BACKTRACE", "0").current_dir(&dir);
        c.stdin(Stdio::null()).stdout(file.try_clone().unwrap()).stderr(file);
        unsafe {
            c.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        let started = Instant::now();
        let child = c.spawn().map_err(|e| format!("cannot start the example server: {}", e))?;
        let pid = child.id();
        let socket = dir.join("vt6").join(pid.to_string());
        let mut s = Server { child, started, dir, socket, log, setup: Setup { clients: vec![], screens: vec![] } };
        // ready when the socket is there and SIGINT is handled
        loop {
            if let Ok(Some(st)) = s.child.try_wait() {
                return Err(format!("the example server ended at its start: {} ({})", st, s.log_text()));
            }
            let status = std::fs::read_to_string(format!("/proc/{}/status", pid)).unwrap_or_default();
            let caught = status
                .lines()
                .find_map(|l| l.strip_prefix("SigCgt:"))
                .and_then(|x| u64::from_str_radix(x.trim(), 16).ok())
                .unwrap_or(0);
            if caught & 2 != 0 && s.socket.exists() && at_rest(pid) {
                break;
            }
            if s.started.elapsed() > PATIENCE {
                return Err(format!(
                    "the example server is not ready after {:?}: socket exists {}, SIGINT handled {} ({})",
                    PATIENCE, s.socket.exists(), caught & 2 != 0, s.log_text()
                ));
            }
            std::thread::sleep(Duration::from_millis(1));
        }
        let secret = |ty: &str| -> Result<String, String> {
            let found: Vec<String> = messages_in(&std::fs::read(&s.log).unwrap())
                .into_iter()
                .filter(|m| m.len() == 2 && m[0] == ty.as_bytes())
                .map(|m| String::from_utf8_lossy(&m[1]).into_owned())
                .collect();
            ensure!(found.len() == 1, "{} messages of type {} printed at the start: {}", found.len(), ty, s.log_text());
            Ok(found[0].clone())
        };
        let setup = Setup {
            clients: vec![ClientSpec { id: "a".into(), scr: Default::default(), secret: secret("posix1.client-hello")? }],
            screens: vec![ScreenSpec {
                id: "screen1".into(),
                stdin: secret("posix1.stdin-hello")?,
                stdout: secret("posix1.stdout-hello")?,
            }],
        };
        s.setup = setup;
        Ok(s)
    }
    fn log_text(&self) -> String {
        let t = std::fs::read(&self.log).unwrap_or_default();
        String::from_utf8_lossy(&t[t.len().saturating_sub(2000)..]).into_owned()
    }
    /// Moves bytes until neither side has anything left to do.
    fn settle(&mut self, clients: &mut [Client]) -> Res {
        let t0 = Instant::now();
        let pid = self.child.id();
        loop {
            let mut moved = false;
            for c in clients.iter_mut() {
                moved |= c.pump();
            }
            if !moved && at_rest(pid) {
                // what was sent just before it came to rest
                let mut more = false;
                for c in clients.iter_mut() {
                    more |= c.pump();
                }
                if !more {
                    return Ok(());
                }
                continue;
            }
            if let Ok(Some(st)) = self.child.try_wait() {
                return Err(format!("the example server ended: {} ({})", st, self.log_text()));
            }
            ensure!(t0.elapsed() < PATIENCE, "the example server does not come to rest");
            std::thread::yield_now();
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Run {
    ops: Vec<Op>,
    /// wait at the end until the text has arrived at a connected stdin client
    wait: bool,
}

const A: Aspects = Aspects {
    out: true,
    silence: false,
    state: false,
    left: false,
    clients: false,
    auth: false,
    registered: false,
    seen: false,
    inner: false,
    hs: false,
    stdout: false,
    discards: false,
    parse_errors: false,
    transport: true,
    only_handshake: false,
};

fn text_count(got: &[u8]) -> Result<u64, String> {
    ensure!(
        got.len() % TEXT.len() == 0 && got.chunks(TEXT.len()).all(|c| c == TEXT),
        "a stdin client received {:?}",
        B(got[..got.len().min(200)].to_vec())
    );
    Ok((got.len() / TEXT.len()) as u64)
}

fn c28_case(r: &Run, o: &mut Obs) -> Res {
    let mut s = Server::start()?;
    let setup = s.setup.clone();
    let mut model = Model::new(&setup);
    model.bare = true;
    let mut clients: Vec<Client> = vec![];
    let mut was_stdin: HashSet<usize> = HashSet::new();
    let mut sure: BTreeMap<usize, usize> = BTreeMap::new();
    let mut made_ok = 0;
    let mut redeemed = 0;
    for (n, op) in r.ops.iter().enumerate() {
        let count = clients.len();
        let step = match op {
            Op::Open => Step::Open,
            _ if count == 0 => continue,
            Op::Close(c) => Step::Close(*c as usize % count),
            Op::Send(c, pieces) => {
                let i = *c as usize % count;
                let rs = Resolver { setup: &setup, made: model.issued.clone(), me: model.client_of(i) };
                let mut bytes = vec![];
                for p in pieces {
                    bytes.extend_from_slice(&rs.piece(p));
                }
                if bytes.is_empty() || clients[i].stream.is_none() {
                    continue;
                }
                Step::Send(i, bytes)
            }
        };
        let at = |e: String| format!("step {} ({}): {}", n, show_step(&step), e);
        let before: Vec<usize> = clients.iter().map(|c| c.got.len()).collect();
        match &step {
            Step::Open => {
                let c = UnixStream::connect(&s.socket).map_err(|e| at(format!("cannot connect: {}", e)))?;
                clients.push(Client::new(c));
            }
            Step::Close(i) => clients[*i].stream = None,
            Step::Send(i, b) => clients[*i].push(b),
        }
        s.settle(&mut clients).map_err(at)?;
        // secrets handed out in this step
        let mut fresh = vec![];
        for (i, c) in clients.iter().enumerate() {
            let from = before.get(i).copied().unwrap_or(0);
            if !was_stdin.contains(&i) {
                for m in messages_in(&c.got[from..]) {
                    if m.len() == 2 && m[0] == b"core1.client-new" {
                        fresh.push(String::from_utf8_lossy(&m[1]).into_owned());
                    }
                }
            }
        }
        for f in fresh {
            let known = model.issued.contains(&f)
                || f == setup.clients[0].secret
                || f == setup.screens[0].stdin
                || f == setup.screens[0].stdout;
            ensure!(!known, "{}", at(format!("the secret {} was issued twice", f)));
            model.issued.push(f);
            made_ok += 1;
        }
        let want = model.step(&step);
        if model.missing_secret {
            // the reply may have been lost together with the connection
            let torn = match &step {
                Step::Send(i, _) => model.is_dead(*i),
                _ => false,
            };
            ensure!(torn, "{}", at("a client that should have been registered was not".into()));
            o.class("reply lost at teardown");
            break;
        }
        let mut real = Snap::default();
        for (i, c) in clients.iter().enumerate() {
            if model.mode_name(i) == "Stdin" {
                was_stdin.insert(i);
            }
            if was_stdin.contains(&i) {
                let k = text_count(&c.got).map_err(at)?;
                let limit = s.started.elapsed().as_secs();
                ensure!(k <= limit, "{}", at(format!("the text was sent {} times within {} seconds", k, limit)));
            } else {
                real.out.insert(i, c.got.clone());
            }
            if c.stream.is_some() {
                ensure!(
                    c.eof == model.is_dead(i),
                    "{}",
                    at(format!("connection {} is {}, expected mode {}", i, if c.eof { "closed" } else { "open" }, model.mode_name(i)))
                );
            }
        }
        let mut want = want;
        for i in &was_stdin {
            want.out.remove(i);
        }
        for i in 0..clients.len() {
            if clients[i].stream.is_none() {
                want.out.remove(&i);
            }
        }
        compare(&real, &want, None, &sure, &A).map_err(at)?;
        for (i, out) in &want.out {
            if want.state[i] != "Teardown" {
                sure.insert(*i, out.len());
            }
        }
        redeemed = (0..clients.len()).filter(|i| sure.get(i).copied().unwrap_or(0) > 0).count();
    }
    o.nontrivial_if(made_ok > 0 && redeemed > 1);
    o.class_if(redeemed > 1, "issued secret redeemed");
    let live = (0..clients.len()).find(|&i| model.mode_name(i) == "Stdin");
    if let (Some(i), true) = (live, r.wait) {
        o.class("standard input received");
        let t0 = Instant::now();
        let n0 = clients[i].got.len();
        while clients[i].got.len() < n0 + TEXT.len() {
            clients[i].pump();
            ensure!(t0.elapsed() < PATIENCE, "the stdin client receives nothing");
            std::thread::sleep(Duration::from_millis(20));
        }
        text_count(&clients[i].got)?;
    }
    o.class_if(live.is_some(), "stdin client connected");

    // the end
    unsafe { libc::kill(s.child.id() as i32, libc::SIGINT) };
    let t0 = Instant::now();
    let status = loop {
        if let Ok(Some(st)) = s.child.try_wait() {
            break st;
        }
        for c in clients.iter_mut() {
            c.pump();
        }
        ensure!(t0.elapsed() < PATIENCE, "the example server does not stop on SIGINT ({})", s.log_text());
        std::thread::sleep(Duration::from_millis(1));
    };
    ensure!(status.success(), "the example server ended with {} on SIGINT ({})", status, s.log_text());
    ensure!(std::fs::symlink_metadata(&s.socket).is_err(), "the socket is still there after SIGINT");
    let rest: Vec<_> = std::fs::read_dir(s.dir.join("vt6")).map(|r| r.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    ensure!(rest.is_empty(), "left behind: {:?}", rest);
    for (i, c) in clients.iter_mut().enumerate() {
        while c.pump() {}
        ensure!(c.stream.is_none() || c.eof, "connection {} is still open after the server stopped", i);
    }
    let log = String::from_utf8_lossy(&std::fs::read(&s.log).unwrap_or_default()).into_owned();
    for l in log.lines() {
        ensure!(!(l.starts_with("thread '") && l.contains("panicked at")), "the example server panicked: {}", l);
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Stdout {
    /// how many bytes, which, and whether the server comes to rest before the next ones
    bursts: Vec<(usize, u64, bool)>,
    /// the first burst comes together with the hello
    greeting: bool,
}
/// Everything that is written to the screen's standard output appears in the server's log, in order.
fn stdout_case(r: &Stdout, o: &mut Obs) -> Res {
    let mut s = Server::start()?;
    let hello = ref_format(&[b"posix1.stdout-hello", s.setup.screens[0].stdout.as_bytes()]);
    let mut clients = vec![Client::new(UnixStream::connect(&s.socket).map_err(|e| format!("cannot connect: {}", e))?)];
    clients[0].push(&hello);
    if !r.greeting {
        s.settle(&mut clients)?;
    }
    // characters that nothing else in the log contains and that look the same quoted
    let mut sent = vec![];
    for (n, seed, rest) in &r.bursts {
        let mut x = *seed | 1;
        let text: Vec<u8> = (0..*n)
            .map(|_| {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                b"^~#@"[(x >> 62) as usize]
            })
            .collect();
        clients[0].push(&text);
        sent.extend(text);
        if *rest {
            s.settle(&mut clients)?;
        }
    }
    s.settle(&mut clients)?;
    ensure!(!clients[0].eof && clients[0].unsent() == 0, "the connection of the stdout client is closed");
    let log = std::fs::read(&s.log).unwrap_or_default();
    let shown: Vec<u8> = log.into_iter().filter(|b| b"^~#@".contains(b)).collect();
    ensure!(
        shown == sent,
        "of {} bytes of standard output, the log shows {}, the first {} of them right",
        sent.len(), shown.len(), sent.iter().zip(&shown).take_while(|(a, b)| a == b).count()
    );
    o.nontrivial_if(sent.len() > 100);
    o.class_if(r.bursts.iter().any(|b| b.0 > 1024), "more than 1024 bytes at once");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Logged {
    /// what is sent, and whether the server comes to rest before the next
    sent: Vec<(Msg, bool)>,
}
/// Every message of a client appears in the server's log, completely, once and in order.
fn log_case(r: &Logged, o: &mut Obs) -> Res {
    let mut s = Server::start()?;
    let hello = ref_format(&[b"posix1.client-hello", s.setup.clients[0].secret.as_bytes()]);
    let mut clients = vec![Client::new(UnixStream::connect(&s.socket).map_err(|e| format!("cannot connect: {}", e))?)];
    clients[0].push(&hello);
    s.settle(&mut clients)?;
    let mut from = std::fs::read(&s.log).unwrap_or_default().len();
    for (m, rest) in &r.sent {
        clients[0].push(&m.wire());
        if *rest {
            s.settle(&mut clients)?;
        }
    }
    s.settle(&mut clients)?;
    ensure!(!clients[0].eof && clients[0].unsent() == 0, "the connection of the client is closed");
    let log = std::fs::read(&s.log).unwrap_or_default();
    for (n, (m, _)) in r.sent.iter().enumerate() {
        let args: Vec<&[u8]> = m.args.iter().map(|a| &a.0[..]).collect();
        let text = ref_render(&m.ty, &args);
        match log[from..].windows(text.len()).position(|w| w == text.as_bytes()) {
            Some(k) => from += k + text.len(),
            None => {
                return Err(format!(
                    "message {} of {} ({} bytes when rendered) is not in the log: {}",
                    n, r.sent.len(), text.len(), text.chars().take(300).collect::<String>()
                ))
            }
        }
    }
    o.nontrivial_if(r.sent.len() > 1);
    o.class_if(r.sent.iter().any(|m| m.0.wire().len() > 256), "message of more than 256 bytes");
    Ok(())
}

pub fn c28(s: &mut Suite) {
    set_closed_system(false);
    let hello = || {
        one_of![
            4 => made_hello(),
            2 => near_hello(),
            1 => any_hello(),
            1 => good_hello(),
        ]
    };
    let op = one_of![
        4 => Just(vec![Op::Open]),
        // a new connection that says hello at once (the numbering wraps around, so 255 need not be the newest)
        8 => hello().prop_map(|p| vec![Op::Open, Op::Send(255, vec![p])]),
        4 => (conn_no(), hello()).prop_map(|(c, p)| vec![Op::Send(c, vec![p])]),
        8 => send(lifetime(), 1..3).prop_map(|o| vec![o]),
        4 => send(message_piece(), 1..4).prop_map(|o| vec![o]),
        2 => send(garbage(), 1..3).prop_map(|o| vec![o]),
        1 => (0u8..10).prop_map(|c| vec![Op::Close(c)]),
    ];
    let run = (vec(op, 3..25), 0u8..8, one_of![7 => Just(false), 1 => Just(true)]).prop_map(|(body, first, wait)| {
        let mut ops = vec![];
        let mut n = 0usize;
        let mut add = |o: Op| {
            ops.push(match o {
                Op::Open => {
                    n += 1;
                    Op::Open
                }
                Op::Send(255, p) => Op::Send((n - 1) as u8, p),
                o => o,
            })
        };
        if first > 0 {
            add(Op::Open);
            add(Op::Send(255, vec![Piece::Hello(0, Sec::Client(0))]));
        }
        if first == 3 {
            add(Op::Open);
            add(Op::Send(255, vec![Piece::Hello(1, Sec::Stdin(0))]));
        }
        if first & 2 != 0 && first != 3 {
            add(Op::Open);
            add(Op::Send(255, vec![Piece::Hello(2, Sec::Stdout(0))]));
        }
        let late = wait || first & 1 != 0;
        let tail = if late { vec![Op::Open, Op::Send(255, vec![Piece::Hello(1, Sec::Stdin(0))])] } else { vec![] };
        let more = if first & 4 != 0 { vec![Op::Send(0, vec![Piece::EndBelow("a".into())]), Op::Send(0, vec![Piece::M(crate::gen::Msg::new("want", &[b"core1"]))])] } else { vec![] };
        body.into_iter().flatten().chain(tail).chain(more).for_each(add);
        Run { ops, wait }
    });
    let bursts = vec((one_of![2 => lit_size(6000), 2 => 1usize..300, 1 => 1usize..6000], any::<u64>(), any::<bool>()), 1..8);
    s.sub(
        "stdout",
        (400, 10_000),
        "more than 100 bytes of standard output",
        (bursts, any::<bool>()).prop_map(|(bursts, greeting)| Stdout { bursts, greeting }),
        |r, o| stdout_case(r, o),
    );
    let args = vec(one_of![3 => arg_bytes(), 2 => lit_size(900).prop_map(|n| B(vec![b'~'; n])), 1 => (1usize..900).prop_map(|n| B(vec![b'~'; n]))], 0..5);
    let logged = (select(vec!["foo1.bar", "core1.unknown", "test1.x", "core2.set"]), args)
        .prop_map(|(t, args)| Msg { ty: t.into(), args });
    s.sub(
        "log",
        (400, 10_000),
        "more than one message",
        vec((logged, any::<bool>()), 1..8).prop_map(|sent| Logged { sent }),
        |r, o| log_case(r, o),
    );
    // a family of clients, some of it ended, then everyone tries to connect
    let below = vec(vec(select(vec!['a', 'b', '1']), 1..=3).prop_map(|v| v.into_iter().collect::<String>()), 3..8);
    let screens = ["".to_string(), "".to_string(), "".to_string()];
    let family = (below, vec(suffix(), 1..3), any::<bool>(), any::<bool>()).prop_map(move |(ids, ends, together, again)| {
        let make: Vec<Piece> = ids.iter().map(|i| Piece::MakeBelow(i.clone(), screens.clone())).collect();
        let mut ops = vec![Op::Open, Op::Send(0, vec![Piece::Hello(0, Sec::Client(0))])];
        if together {
            ops.push(Op::Send(0, make.clone()));
        } else {
            ops.extend(make.iter().map(|p| Op::Send(0, vec![p.clone()])));
        }
        let n = ids.len();
        ops.extend(ends.into_iter().map(|e| Op::Send(0, vec![Piece::EndBelow(e)])));
        if again {
            ops.push(Op::Send(0, make));
        }
        for k in 0..n {
            ops.push(Op::Open);
            ops.push(Op::Send(1 + k as u8, vec![Piece::Hello(0, Sec::Made(k as u8))]));
        }
        Run { ops, wait: false }
    });
    s.sub(
        "family",
        (400, 10_000),
        "histories in which a client was made and more than one client completed its handshake",
        family,
        |r, o| c28_case(r, o),
    );
    s.sub(
        "process",
        (1_600, 40_000),
        "histories in which a client was made and more than one client completed its handshake",
        run,
        |r, o| c28_case(r, o),
    );
}
