//! C15, C27: what a process learns from its surroundings (descriptor 60, XDG_RUNTIME_DIR).

use crate::fw::*;
use crate::gen::*;
use crate::refmodel::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::ffi::{OsStr, OsString};
use std::io::Write;
use std::os::fd::{AsRawFd, FromRawFd, IntoRawFd, OwnedFd};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::time::Duration;
use vt6::client::{Environment, EnvironmentError};

const FD: i32 = 60;
const LIMIT: usize = 1024;

fn fd_open() -> bool {
    unsafe { libc::fcntl(FD, libc::F_GETFD) >= 0 }
}

fn install(fd: OwnedFd) {
    let raw = fd.into_raw_fd();
    assert!(raw != FD);
    unsafe {
        assert_eq!(libc::dup2(raw, FD), FD);
        libc::close(raw);
    }
}

fn pipe() -> (OwnedFd, OwnedFd) {
    let mut fds = [0; 2];
    unsafe {
        assert_eq!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC), 0);
        (OwnedFd::from_raw_fd(fds[0]), OwnedFd::from_raw_fd(fds[1]))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Carrier {
    Pipe,
    Socket,
    File,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Offer {
    bytes: B,
    /// where the stream is cut into separately delivered pieces
    cuts: Vec<Index16>,
    bytewise: bool,
    carrier: Carrier,
}

/// Bytes the reader has not fetched yet.
fn unread(write_end: i32, carrier: Carrier) -> usize {
    let mut n: libc::c_int = 0;
    let req = if carrier == Carrier::Socket { libc::TIOCOUTQ } else { libc::FIONREAD };
    if unsafe { libc::ioctl(write_end, req, &mut n) } != 0 {
        return 0;
    }
    n as usize
}

/// The outcome of parse() in owned form.
#[derive(Clone, Debug, PartialEq, Eq)]
enum Out {
    Path(Vec<u8>),
    NoTerminal,
    Corrupt { kind: String, offset: usize },
    Invalid { ty: String, args: Vec<Vec<u8>> },
}

fn outcome(env: &Environment) -> Out {
    match env.parse() {
        Ok(r) => {
            let p = r.server_socket_path().as_os_str().as_bytes().to_vec();
            assert_eq!(r.clone().server_socket_path().as_os_str().as_bytes(), &p[..]);
            Out::Path(p)
        }
        Err(e) => {
            let shown = e.to_string();
            match e {
                EnvironmentError::NoVT6Terminal => Out::NoTerminal,
                EnvironmentError::CorruptParentHello(e) => {
                    assert!(shown.contains(&e.to_string()), "error text {:?} does not contain {:?}", shown, e.to_string());
                    Out::Corrupt { kind: e.kind.to_str().into(), offset: e.offset }
                }
                EnvironmentError::InvalidParentHello(m) => {
                    assert!(shown.contains(&m.to_string()), "error text {:?} does not contain {:?}", shown, m.to_string());
                    Out::Invalid {
                        ty: m.parsed_type().as_str().into(),
                        args: m.arguments().map(|a| a.to_vec()).collect(),
                    }
                }
            }
        }
    }
}

fn expected(bytes: &[u8]) -> Out {
    let head = &bytes[..bytes.len().min(LIMIT)];
    match ref_parse(head) {
        Verdict::Err { kind, offset } => Out::Corrupt { kind: kind.into(), offset },
        Verdict::Msg { items, .. } => {
            let get = |i: usize| &head[items[i].0..items[i].1];
            if get(0) == b"posix1.parent-hello" && items.len() == 3 && std::str::from_utf8(get(1)).is_ok() {
                Out::Path(get(2).to_vec())
            } else {
                Out::Invalid {
                    ty: String::from_utf8(get(0).to_vec()).unwrap(),
                    args: (1..items.len()).map(|i| get(i).to_vec()).collect(),
                }
            }
        }
    }
}

fn pieces(f: &Offer) -> Vec<Vec<u8>> {
    let n = f.bytes.len();
    if f.bytewise {
        return f.bytes.iter().map(|b| vec![*b]).collect();
    }
    let mut at: Vec<usize> = f.cuts.iter().map(|c| c.of(n + 1)).collect();
    at.extend([0, n]);
    at.sort();
    at.dedup();
    at.windows(2).map(|w| f.bytes[w[0]..w[1]].to_vec()).collect()
}

fn c15_case(f: &Offer, o: &mut Obs) -> Res {
    let want = expected(&f.bytes);
    // Is the outcome decided by these bytes alone, or only by the end of the stream?
    let decided = f.bytes.len() >= LIMIT || !matches!(&want, Out::Corrupt { kind, .. } if kind == EOF);
    let ps = pieces(f);
    o.nontrivial_if(ps.len() > 1 && !(matches!(want, Out::Corrupt { offset: 0, .. })));
    o.class(match &want {
        Out::Path(p) if std::str::from_utf8(p).is_err() => "path that is not UTF-8",
        Out::Path(_) => "path",
        Out::NoTerminal => unreachable!(),
        Out::Corrupt { kind, .. } if kind == EOF && f.bytes.len() >= LIMIT => "does not fit in 1024 bytes",
        Out::Corrupt { kind, .. } if kind == EOF => "incomplete",
        Out::Corrupt { .. } => "broken",
        Out::Invalid { ty, .. } if ty == "posix1.parent-hello" => "parent-hello with unsuitable arguments",
        Out::Invalid { .. } => "other message",
    });
    o.class_if(f.bytes.len() > LIMIT, "more than 1024 bytes offered");
    o.class_if(f.bytewise, "byte by byte");

    let (rd, wr): (OwnedFd, Option<OwnedFd>) = match f.carrier {
        Carrier::Pipe => {
            let (r, w) = pipe();
            (r, Some(w))
        }
        Carrier::Socket => {
            let (r, w) = std::os::unix::net::UnixStream::pair().unwrap();
            (r.into(), Some(w.into()))
        }
        Carrier::File => {
            let p = scratch_dir().join("hello");
            std::fs::write(&p, &f.bytes[..]).unwrap();
            (std::fs::File::open(&p).unwrap().into(), None)
        }
    };
    install(rd);
    let stop = AtomicBool::new(false);
    let env = std::thread::scope(|sc| {
        let (tx, rx) = std::sync::mpsc::channel::<()>();
        if let Some(w) = wr {
            let (ps, stop, carrier) = (&ps, &stop, f.carrier);
            sc.spawn(move || {
                let raw = w.as_raw_fd();
                let mut file = std::fs::File::from(w);
                'all: for (i, p) in ps.iter().enumerate() {
                    if i > 0 {
                        // the next piece is delivered when the reader has taken the previous one
                        let mut spins = 0u32;
                        while unread(raw, carrier) > 0 {
                            if stop.load(SeqCst) {
                                break 'all;
                            }
                            spins += 1;
                            if spins > 300 {
                                std::thread::sleep(Duration::from_micros(30));
                            } else {
                                std::thread::yield_now();
                            }
                        }
                    }
                    if stop.load(SeqCst) || file.write_all(p).is_err() {
                        break;
                    }
                }
                // A reader that knows enough must not wait for the end of the stream: it is only provided when needed.
                if decided {
                    let _ = rx.recv();
                }
                drop(file);
            });
        }
        let env = Environment::discover();
        stop.store(true, SeqCst);
        drop(tx);
        env
    });
    ensure!(!fd_open(), "descriptor 60 is still open after discovery");
    let env = env.map_err(|e| format!("discover() failed: {}", e))?;
    let got = outcome(&env);
    if got != want {
        // The offset of some errors is the end of the digits seen so far, which depends on the cutting.
        let fine = match (&got, &want) {
            (Out::Corrupt { kind, offset }, Out::Corrupt { kind: k, .. }) if kind == k && kind != EOF => (0..=f.bytes.len().min(LIMIT))
                .any(|n| expected(&f.bytes[..n]) == Out::Corrupt { kind: kind.clone(), offset: *offset }),
            _ => false,
        };
        ensure!(fine, "{} bytes in {} pieces: got {:?}, expected {:?}", f.bytes.len(), ps.len(), got, want);
    }
    let moved = Box::new(env);
    for _ in 0..2 {
        ensure_eq!(outcome(&moved), got, "parse() repeated");
    }
    Ok(())
}

fn hello_args() -> BoxedStrategy<(B, B)> {
    let secret = one_of![
        5 => "[A-Za-z0-9_-]{1,44}".prop_map(|s| B(s.into_bytes())),
        1 => arg_bytes(),
        1 => "\\PC{0,10}".prop_map(|s| B(s.into_bytes())),
    ];
    let path = one_of![
        4 => "/[a-z0-9/._-]{1,40}".prop_map(|s| B(s.into_bytes())),
        3 => arg_bytes(),
        2 => vec(any::<u8>(), 0..40).prop_map(B),
    ];
    (secret, path).boxed()
}

fn hello() -> BoxedStrategy<Vec<u8>> {
    hello_args().prop_map(|(s, p)| Msg { ty: "posix1.parent-hello".into(), args: vec![s, p] }.wire()).boxed()
}

/// A hello of nearly, exactly or a little more than 1024 bytes.
fn big_hello() -> BoxedStrategy<Vec<u8>> {
    (hello_args(), one_of![4 => 1018usize..1030, 1 => 300usize..1400], any::<bool>(), any::<u8>())
        .prop_map(|((s, p), target, which, fill)| {
            let mut m = Msg { ty: "posix1.parent-hello".into(), args: vec![s, p] };
            let base = m.wire().len();
            let a = &mut m.args[which as usize].0;
            let fill = if which { fill } else { b'A' + fill % 26 };
            let more = target.saturating_sub(base);
            a.extend(std::iter::repeat(fill).take(more));
            while m.wire().len() > target && m.args[which as usize].0.len() > 1 {
                m.args[which as usize].0.pop();
            }
            m.wire()
        })
        .boxed()
}

fn offered() -> BoxedStrategy<B> {
    let front = one_of![
        6 => hello(),
        3 => big_hello(),
        2 => msg(4).prop_map(|m| m.wire()),
        // right type, wrong number of arguments
        2 => args(4).prop_map(|a| Msg { ty: "posix1.parent-hello".into(), args: a }.wire()),
        3 => mutated(hello()),
        1 => mutated(big_hello()),
        1 => wire_soup(0..30),
        1 => parser_input().prop_map(|b| b.0),
        1 => Just(vec![]),
    ];
    let tail = one_of![
        3 => Just(vec![]),
        1 => vec(any::<u8>(), 1..20),
        1 => hello(),
        1 => vec(any::<u8>(), 900..3000),
        1 => Just(b"}".to_vec()),
    ];
    let cut_off = one_of![4 => Just(None), 1 => idx().prop_map(Some)];
    (front, tail, cut_off)
        .prop_map(|(mut f, t, c)| {
            if let Some(c) = c {
                f.truncate(c.of(f.len() + 1));
            } else {
                f.extend(t);
            }
            B(f)
        })
        .boxed()
}

#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
pub enum Odd {
    Closed,
    Directory,
    WriteOnly,
    NonBlockingEmpty,
    EmptyFile,
    Epoll,
    Listening,
    PathOnly,
}

fn odd_case(k: &Odd, o: &mut Obs) -> Res {
    o.nontrivial = true;
    unsafe { libc::close(FD) };
    let mut keep: Option<OwnedFd> = None;
    match k {
        Odd::Closed => {}
        Odd::Directory => install(std::fs::File::open(scratch_dir()).unwrap().into()),
        Odd::WriteOnly => install(std::fs::File::create(scratch_dir().join("w")).unwrap().into()),
        Odd::NonBlockingEmpty => {
            let (r, w) = pipe();
            unsafe { libc::fcntl(r.as_raw_fd(), libc::F_SETFL, libc::O_NONBLOCK) };
            install(r);
            keep = Some(w);
        }
        Odd::EmptyFile => {
            std::fs::write(scratch_dir().join("e"), b"").unwrap();
            install(std::fs::File::open(scratch_dir().join("e")).unwrap().into())
        }
        Odd::Listening => {
            let p = scratch_dir().join("l");
            let _ = std::fs::remove_file(&p);
            install(std::os::unix::net::UnixListener::bind(&p).unwrap().into())
        }
        Odd::PathOnly => {
            use std::os::unix::fs::OpenOptionsExt;
            let f = std::fs::OpenOptions::new().read(true).custom_flags(libc::O_PATH).open(scratch_dir()).unwrap();
            install(f.into())
        }
        Odd::Epoll => install(unsafe { OwnedFd::from_raw_fd(libc::epoll_create1(libc::EPOLL_CLOEXEC)) }),
    }
    let env = Environment::discover();
    ensure!(!fd_open(), "descriptor 60 is still open after discovery");
    drop(keep);
    match (k, env) {
        (Odd::Closed, Ok(e)) => {
            for _ in 0..3 {
                ensure_eq!(outcome(&e), Out::NoTerminal, "no descriptor 60");
            }
        }
        (Odd::EmptyFile, Ok(e)) => ensure_eq!(outcome(&e), expected(b""), "empty stream"),
        (Odd::Closed, Err(e)) | (Odd::EmptyFile, Err(e)) => return Err(format!("discover() failed: {}", e)),
        (Odd::WriteOnly | Odd::Epoll | Odd::Listening | Odd::PathOnly, e) => {
            let e = e.map_err(|e| format!("discover() failed on a descriptor that cannot be read from ({:?}): {}", k, e))?;
            for _ in 0..3 {
                ensure_eq!(outcome(&e), Out::NoTerminal, "a descriptor that cannot be read from ({:?})", k);
            }
        }
        // neither a byte stream nor absent: only that nothing panics and no hello is invented
        (_, Ok(e)) => ensure!(!matches!(outcome(&e), Out::Path(_)), "a hello was found on {:?}", k),
        (_, Err(_)) => {}
    }
    Ok(())
}

pub fn c15(s: &mut Suite) {
    let cuts = || one_of![1 => Just(vec![]), 4 => vec(idx(), 1..6), 1 => vec(idx(), 6..30)];
    let carrier = || one_of![5 => Just(Carrier::Pipe), 4 => Just(Carrier::Socket), 1 => Just(Carrier::File)];
    let offer = (offered(), cuts(), one_of![9 => Just(false), 1 => Just(true)], carrier())
        .prop_map(|(bytes, cuts, bytewise, carrier)| Offer { bytes, cuts, bytewise, carrier });
    s.sub(
        "streams",
        (60_000, 2_000_000),
        "streams of more than one byte delivered in several pieces that are not broken at the first byte",
        offer,
        |f, o| c15_case(f, o),
    );
    // every single cut of short hellos, and every length around the limit
    let mut list = vec![];
    for path in ["/run/vt6/1", "x", "", "\u{e9}\u{0}}"] {
        let w = Msg::new("posix1.parent-hello", &[b"s3cret", path.as_bytes()]).wire();
        for k in 0..=w.len() {
            for carrier in [Carrier::Pipe, Carrier::Socket] {
                let at = Index16::exactly(k, w.len() + 1);
                list.push(Offer { bytes: B(w.clone()), cuts: vec![at], bytewise: false, carrier });
                list.push(Offer { bytes: B(w[..k].to_vec()), cuts: vec![], bytewise: k % 2 == 0, carrier });
            }
        }
    }
    for n in 940..1010usize {
        let w = Msg::new("posix1.parent-hello", &[b"s3cret", &vec![b'p'; n]]).wire();
        for c in [0usize, 1, 40, 1000, 1023] {
            let at = Index16::exactly(c.min(w.len()), w.len() + 1);
            list.push(Offer { bytes: B(w.clone()), cuts: vec![at], bytewise: false, carrier: Carrier::Pipe });
        }
        list.push(Offer { bytes: B(w.clone()), cuts: vec![], bytewise: false, carrier: Carrier::File });
    }
    s.each("cuts", "every single cut and every prefix of short hellos, every length around 1024", list.into_iter(), |f, o| c15_case(f, o));
    let odd = [Odd::Closed, Odd::Directory, Odd::WriteOnly, Odd::NonBlockingEmpty, Odd::EmptyFile, Odd::Epoll, Odd::Listening, Odd::PathOnly];
    s.each("odd", "descriptor 60 absent or not a readable stream", odd.into_iter(), |k, o| odd_case(k, o));
}

// -- C27 ---------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Here {
    /// the directory exists
    Dir,
    /// a symbolic link to an existing directory
    LinkToDir,
    Nothing,
    File,
    LinkToFile,
    LinkToNothing,
    /// there is a file where a parent directory should be
    BelowFile,
    Fifo,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Vt6 {
    Absent,
    EmptyDir,
    /// with some contents, which must survive
    FullDir(Vec<String>),
    LinkToDir,
    /// with something at the default socket path; 0: file, 1: dead socket, 2: socket that is listened to, 3: directory,
    /// 4: link to nothing, 5: FIFO, 6: link to a socket
    Occupied(u8),
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Surroundings {
    /// None: variable unset; empty: set to the empty string
    names: Option<Vec<B>>,
    here: Here,
    vt6: Vt6,
    relative: bool,
    /// 1, 2: trailing slashes; 3: doubled slashes; 4: trailing "/."
    slashes: u8,
    calls: u8,
    /// which other variables name an existing directory
    #[serde(default)]
    others: u16,
    /// which of the calls are made by a forked process, whose number is another one
    #[serde(default)]
    forked: u8,
}
const OTHERS: [&str; 12] = [
    "TMPDIR", "HOME", "XDG_CACHE_HOME", "XDG_STATE_HOME", "XDG_DATA_HOME", "XDG_CONFIG_HOME", "TMP", "TEMP", "TEMPDIR", "PWD",
    "XDG_DATA_DIRS", "VT6_RUNTIME_DIR",
];

/// Everything below a directory.
fn tree(dir: &Path) -> Vec<(PathBuf, String)> {
    let mut out = vec![];
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).unwrap().flatten() {
            let p = e.path();
            let t = e.file_type().unwrap();
            let what = if t.is_symlink() {
                format!("link to {:?}", std::fs::read_link(&p).unwrap())
            } else if t.is_dir() {
                todo.push(p.clone());
                "dir".into()
            } else if t.is_file() {
                format!("file {:?}", std::fs::read(&p).unwrap())
            } else {
                "other".into()
            };
            out.push((p, what));
        }
    }
    out.sort();
    out
}

fn c27_case(c: &Surroundings, o: &mut Obs) -> Res {
    let root = scratch_dir().join("xdg");
    let _ = std::fs::remove_dir_all(&root);
    std::fs::create_dir_all(&root).unwrap();
    // canonical, so that relative and absolute names mean the same
    let root = root.canonicalize().unwrap();
    std::env::set_current_dir(&root).unwrap();
    let side = root.join("side");
    std::fs::create_dir(&side).unwrap();
    let mut listener = None;

    let (var, exists): (Option<OsString>, bool) = match &c.names {
        None => (None, false),
        Some(names) if names.is_empty() => (Some(OsString::new()), false),
        Some(names) => {
            let mut rel = PathBuf::from("r");
            std::fs::create_dir(root.join("r")).unwrap();
            for n in &names[..names.len() - 1] {
                rel.push(OsStr::from_bytes(&n.0));
                let _ = std::fs::create_dir(root.join(&rel));
            }
            rel.push(OsStr::from_bytes(&names.last().unwrap().0));
            let full = root.join(&rel);
            match c.here {
                Here::Dir => std::fs::create_dir(&full).unwrap(),
                Here::LinkToDir => std::os::unix::fs::symlink(&side, &full).unwrap(),
                Here::Nothing => {}
                Here::File => std::fs::write(&full, b"data").unwrap(),
                Here::LinkToFile => {
                    std::fs::write(root.join("afile"), b"data").unwrap();
                    std::os::unix::fs::symlink(root.join("afile"), &full).unwrap()
                }
                Here::LinkToNothing => std::os::unix::fs::symlink(root.join("nowhere"), &full).unwrap(),
                Here::BelowFile => {
                    std::fs::write(&full, b"data").unwrap();
                    rel.push("sub");
                }
                Here::Fifo => {
                    let p = std::ffi::CString::new(full.as_os_str().as_bytes()).unwrap();
                    assert_eq!(unsafe { libc::mkfifo(p.as_ptr(), 0o600) }, 0);
                }
            }
            let exists = matches!(c.here, Here::Dir | Here::LinkToDir);
            if exists {
                let v = full.join("vt6");
                match &c.vt6 {
                    Vt6::Absent => {}
                    Vt6::EmptyDir => std::fs::create_dir(&v).unwrap(),
                    Vt6::FullDir(l) => {
                        std::fs::create_dir(&v).unwrap();
                        for n in l {
                            std::fs::write(v.join(n), n).unwrap();
                        }
                        // a socket path left behind by a process with our number
                        std::fs::write(v.join(std::process::id().to_string()), b"stale").unwrap();
                    }
                    Vt6::Occupied(k) => {
                        std::fs::create_dir(&v).unwrap();
                        let p = v.join(std::process::id().to_string());
                        // (the full path may be too long for a socket)
                        let l = |at: &Path| {
                            let l = std::os::unix::net::UnixListener::bind("sock").unwrap();
                            std::fs::rename("sock", at).unwrap();
                            l
                        };
                        match k {
                            0 => std::fs::write(&p, b"stale").unwrap(),
                            1 => drop(l(&p)),
                            2 => listener = Some(l(&p)),
                            3 => std::fs::create_dir(&p).unwrap(),
                            4 => std::os::unix::fs::symlink(root.join("nowhere"), &p).unwrap(),
                            5 => {
                                let p = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
                                assert_eq!(unsafe { libc::mkfifo(p.as_ptr(), 0o600) }, 0);
                            }
                            _ => {
                                drop(l(&root.join("target")));
                                std::os::unix::fs::symlink(root.join("target"), &p).unwrap()
                            }
                        }
                    }
                    Vt6::LinkToDir => {
                        std::fs::create_dir(root.join("elsewhere")).unwrap();
                        std::os::unix::fs::symlink(root.join("elsewhere"), &v).unwrap()
                    }
                }
            }
            let mut s = if c.relative { rel.as_os_str().as_bytes().to_vec() } else { root.join(&rel).as_os_str().as_bytes().to_vec() };
            match c.slashes {
                1 => s.push(b'/'),
                2 => s.extend(b"///"),
                3 => {
                    let k = s.iter().rposition(|&b| b == b'/').unwrap();
                    s.insert(k, b'/');
                }
                4 => s.extend(b"/."),
                _ => {}
            }
            (Some(OsString::from_vec(s)), exists)
        }
    };
    for (i, v) in OTHERS.iter().enumerate() {
        if c.others & 1 << i != 0 {
            let d = root.join("others");
            let _ = std::fs::create_dir(&d);
            std::env::set_var(v, d);
        } else {
            std::env::remove_var(v);
        }
    }
    match &var {
        None => std::env::remove_var("XDG_RUNTIME_DIR"),
        Some(v) => std::env::set_var("XDG_RUNTIME_DIR", v),
    }
    let before = tree(&root);
    o.nontrivial_if(c.names.as_ref().map_or(false, |n| !n.is_empty()));
    o.class(match (&var, exists) {
        (None, _) => "unset",
        (Some(v), _) if v.is_empty() => "empty",
        (Some(v), true) if v.to_str().is_none() => "directory whose name is not UTF-8",
        (_, true) => "directory",
        (_, false) => "not a directory",
    });
    o.class_if(exists && c.vt6 == Vt6::Absent, "vt6 created");
    o.class_if(exists && c.vt6 != Vt6::Absent, "vt6 existed before");
    o.class_if(c.relative, "relative");
    o.class_if(c.others != 0 && var.is_none(), "unset, others set");
    o.class_if(c.forked & ((1 << c.calls) - 1) != 0, "forked");
    let mut before = before;
    for k in 0..c.calls {
        let (got, pid) = if c.forked & 1 << k == 0 {
            (vt6::server::default_socket_path().map_err(|e| e.to_string()), std::process::id())
        } else {
            let r = super::ids::in_fork(|| {
                let mut v = std::process::id().to_be_bytes().to_vec();
                match vt6::server::default_socket_path() {
                    Ok(p) => {
                        v.push(1);
                        v.extend(p.as_os_str().as_bytes());
                    }
                    Err(e) => {
                        v.push(0);
                        v.extend(e.to_string().into_bytes());
                    }
                }
                v
            })?;
            let pid = u32::from_be_bytes(r[..4].try_into().unwrap());
            let rest = r[5..].to_vec();
            (if r[4] == 1 { Ok(PathBuf::from(OsString::from_vec(rest))) } else { Err(String::from_utf8_lossy(&rest).into_owned()) }, pid)
        };
        let after = tree(&root);
        if !exists {
            if let Ok(p) = got {
                return Err(format!("{:?} is no directory, but the default socket path is {:?}", var, p));
            }
            ensure_eq!(after, before, "files after an error");
            continue;
        }
        let dir = PathBuf::from(var.clone().unwrap());
        let want = dir.join("vt6").join(pid.to_string());
        let got = got.map_err(|e| format!("{:?} is a directory, but there is an error: {}", dir, e))?;
        ensure_eq!(got, want, "default socket path");
        ensure_eq!(got.file_name(), want.file_name(), "name of the socket");
        let vt6 = got.parent().unwrap();
        ensure!(vt6.is_dir(), "{:?} is no directory", vt6);
        ensure_eq!(vt6.canonicalize().unwrap().parent().is_some(), true, "parent");
        let mut want_tree = before.clone();
        if c.vt6 == Vt6::Absent && k == 0 {
            want_tree.push((dir.canonicalize().unwrap().join("vt6"), "dir".into()));
            want_tree.sort();
        }
        ensure_eq!(after, want_tree, "files afterwards");
        before = after;
    }
    std::env::set_current_dir("/").unwrap();
    o.class_if(listener.is_some(), "a server listens there");
    Ok(())
}

pub fn c27(s: &mut Suite) {
    let name = one_of![
        3 => "[a-z0-9]{1,8}".prop_map(|s| B(s.into_bytes())),
        3 => vec(one_of![1u8..=46, 48u8..=255], 1..12).prop_map(B),
        1 => "\\PC{1,8}".prop_map(|s| B(s.into_bytes())),
        1 => select(vec!["vt6", "$HOME", "~", " ", "\n", "*", "%s", "...", "a\\b", "-", "1000"]).prop_map(|s| B(s.as_bytes().to_vec())),
        1 => (1usize..=255, any::<u8>()).prop_map(|(n, b)| B(vec![if b == 0 || b == b'/' || b == b'.' { b'x' } else { b }; n])),
    ]
    .prop_filter_map("usable name", |mut n| {
        n.0.retain(|&b| b != b'/' && b != 0);
        n.0.truncate(255);
        (!n.0.is_empty() && n.0 != b"." && n.0 != b"..").then_some(n)
    });
    let here = one_of![
        8 => Just(Here::Dir),
        2 => Just(Here::LinkToDir),
        1 => Just(Here::Nothing),
        1 => Just(Here::File),
        1 => Just(Here::LinkToFile),
        1 => Just(Here::LinkToNothing),
        1 => Just(Here::BelowFile),
        1 => Just(Here::Fifo),
    ];
    let vt6 = one_of![
        4 => Just(Vt6::Absent),
        1 => Just(Vt6::EmptyDir),
        2 => vec("[a-z0-9]{1,6}", 0..4).prop_map(|mut v| { v.sort(); v.dedup(); Vt6::FullDir(v) }),
        1 => Just(Vt6::LinkToDir),
        2 => (0u8..7).prop_map(Vt6::Occupied),
    ];
    let names = one_of![
        1 => Just(None),
        1 => Just(Some(vec![])),
        20 => vec(name, 1..4).prop_map(Some),
    ];
    let slashes = one_of![4 => Just(0u8), 1 => 1u8..5];
    let st = (names, here, vt6, one_of![4 => Just(false), 1 => Just(true)], slashes, 1u8..4, one_of![1 => Just(0u16), 3 => any::<u16>(), 1 => Just(!0)], one_of![6 => Just(0u8), 1 => 0u8..8]).prop_map(
        |(names, here, vt6, relative, slashes, calls, others, forked)| Surroundings { names, here, vt6, relative, slashes, calls, others, forked },
    );
    s.sub("surroundings", (40_000, 1_000_000), "a named directory or something that is no directory", st, |c, o| c27_case(c, o));
}
