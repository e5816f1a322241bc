//! C12, C13, C14: derived client IDs, selectors, identities, secrets.

use crate::fw::*;
use crate::gen::*;
use crate::refmodel::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use vt6::client::core::*;
use vt6::common::core::msg::*;
use vt6::common::core::*;
use vt6::server::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Suf {
    Own,
    Local(u32),
    Job(u32),
    Child(u32, u32),
}
impl Suf {
    fn real(self) -> ClientIDSuffix {
        match self {
            Suf::Own => ClientIDSuffix::Own,
            Suf::Local(i) => ClientIDSuffix::Local(i),
            Suf::Job(i) => ClientIDSuffix::Job(i),
            Suf::Child(i, j) => ClientIDSuffix::Child(i, j),
        }
    }
    fn encloses(self, other: Suf) -> bool {
        match (self, other) {
            (a, b) if a == b => true,
            (Suf::Own, _) => true,
            (Suf::Job(i), Suf::Child(j, _)) => i == j,
            _ => false,
        }
    }
    fn weight(self) -> u64 {
        match self {
            Suf::Own => 0,
            Suf::Local(i) | Suf::Job(i) => i as u64,
            Suf::Child(i, j) => i as u64 + j as u64,
        }
    }
}

fn derive(base: &str, s: Suf) -> Result<Vec<u8>, String> {
    let b = ClientID::parse(base).unwrap();
    let rel = s.real().below(b);
    ensure_eq!(rel.base(), b, "base()");
    ensure!(rel.suffix() == s.real(), "suffix()");
    let size = rel.get_size();
    let mut buf = vec![b'!'; size];
    rel.encode(&mut buf);
    ensure!(buf.starts_with(base.as_bytes()), "{:?} does not start with the base {:?}", s, base);
    ensure!(
        is_client_id(&buf),
        "{:?} below {:?} is no valid client ID of the announced {} bytes: {:?}",
        s,
        base,
        size,
        B(buf.iter().copied().take(100).collect())
    );
    Ok(buf)
}

fn c12_pair(base: &str, a: Suf, b: Suf, o: &mut Obs) -> Res {
    let (x, y) = (derive(base, a)?, derive(base, b)?);
    if a == b {
        ensure!(x == y, "{:?} is not deterministic", a);
        return Ok(());
    }
    let show = |v: &[u8]| if v.len() > 60 { format!("({} bytes)", v.len()) } else { format!("{:?}", B(v.to_vec())) };
    ensure!(x != y, "{:?} and {:?} have the same client ID {}", a, b, show(&x));
    ensure!(
        y.starts_with(&x) == a.encloses(b),
        "{:?} is {} and {:?} is {}: prefix {}, enclosing {}",
        a,
        show(&x),
        b,
        show(&y),
        y.starts_with(&x),
        a.encloses(b)
    );
    ensure!(x.starts_with(&y) == b.encloses(a), "{:?} is {} and {:?} is {}", b, show(&y), a, show(&x));
    o.class_if(a.encloses(b) || b.encloses(a), "nested");
    Ok(())
}

pub fn c12(s: &mut Suite) {
    let n = || {
        one_of![
            4 => 0u32..8,
            4 => 0u32..400,
            3 => (0u32..40, -2i64..3).prop_map(|(k, d)| (k as i64 * 61 + d).max(0) as u32),
            1 => 0u32..20_000,
        ]
        .boxed()
    };
    let suf = move || {
        one_of![
            1 => Just(Suf::Own),
            3 => n().prop_map(Suf::Local),
            3 => n().prop_map(Suf::Job),
            4 => (n(), n()).prop_map(|(i, j)| Suf::Child(i, j)),
        ]
    };
    let rel = (suf(), n(), suf(), 0u8..6).prop_map(|(a, k, b, how)| {
        let b = match (how, a) {
            (0, Suf::Job(i)) => Suf::Child(i, k),
            (1, Suf::Child(i, _)) => Suf::Job(i),
            (2, Suf::Child(i, _)) => Suf::Child(i, k),
            (3, Suf::Child(i, j)) => Suf::Child(j, i),
            (4, Suf::Job(i)) => Suf::Local(i),
            (5, Suf::Local(i)) => Suf::Child(i, k),
            _ => b,
        };
        (a, b)
    });
    s.sub(
        "pairs",
        (240_000, 8_000_000),
        "pairs of different suffixes below the same base",
        (one_of![3 => client_id(), 1 => Just("z".to_string()), 1 => Just("a0".to_string())], rel),
        |(base, (a, b)), o| {
            o.nontrivial_if(a != b);
            c12_pair(base, *a, *b, o)
        },
    );
    s.each("consecutive", "every index from 0 to 2000 against its neighbours and its double, for all kinds", 0u32..2000, |&i, o| {
        o.nontrivial = true;
        for j in [i + 1, i + 61, 2 * i + 3, 0] {
            for (a, b) in [
                (Suf::Job(i), Suf::Job(j)),
                (Suf::Local(i), Suf::Local(j)),
                (Suf::Local(i), Suf::Job(j)),
                (Suf::Job(i), Suf::Child(i, j)),
                (Suf::Job(j), Suf::Child(i, j)),
                (Suf::Child(i, j), Suf::Child(j, i)),
                (Suf::Local(i), Suf::Child(i, j)),
                (Suf::Own, Suf::Local(i)),
            ] {
                c12_pair("b", a, b, o)?;
            }
        }
        Ok(())
    });
    s.each(
        "small_square",
        "all pairs of suffixes with indexes 0..=8 and 58..=63",
        {
            let ns: Vec<u32> = (0..9).chain(58..64).collect();
            let mut all = vec![Suf::Own];
            for &i in &ns {
                all.push(Suf::Local(i));
                all.push(Suf::Job(i));
                for &j in &ns {
                    all.push(Suf::Child(i, j));
                }
            }
            all.clone().into_iter().map(move |a| (a, all.clone()))
        },
        |(a, all), o| {
            o.nontrivial = true;
            let x = derive("c1", *a)?;
            for b in all {
                let y = derive("c1", *b)?;
                ensure!((x == y) == (a == b), "{:?} and {:?}: {:?} and {:?}", a, b, B(x), B(y));
                ensure!(y.starts_with(&x) == a.encloses(*b), "{:?} and {:?}: {:?} and {:?}", a, b, B(x), B(y));
            }
            Ok(())
        },
    );
    // the ends of the 32-bit range: the IDs get up to 140 MB long
    let m = u32::MAX;
    let mut big: Vec<(Suf, Suf)> = vec![
        (Suf::Job(m), Suf::Job(m - 1)),
        (Suf::Local(m), Suf::Local(m - 1)),
        (Suf::Local(m), Suf::Job(m)),
        (Suf::Job(m), Suf::Child(m, 0)),
        (Suf::Child(0, m), Suf::Child(m, 0)),
        (Suf::Job(m - 1), Suf::Child(m, 1)),
        (Suf::Own, Suf::Local(m)),
        (Suf::Job(1 << 31), Suf::Job((1 << 31) - 1)),
        (Suf::Job(0), Suf::Job(m)),
        (Suf::Child(65535, 65536), Suf::Child(65536, 65535)),
        (Suf::Child(1 << 20, 3), Suf::Job(1 << 20)),
        (Suf::Job(1 << 16), Suf::Job((1 << 16) - 1)),
    ];
    if s.tier == Tier::Thorough {
        for k in 0..60u32 {
            big.push((Suf::Job(m - k), Suf::Child(m - k - 1, k)));
            big.push((Suf::Local(m / 61 * 61 - k), Suf::Local(m / 61 * 61 - k - 1)));
        }
        for k in 8..32u32 {
            big.push((Suf::Job(1 << k), Suf::Child(1 << k, 1 << (k / 2))));
            big.push((Suf::Local((1 << k) - 1), Suf::Local(1 << k)));
        }
    }
    s.each("huge", "pairs at the ends of the 32-bit range", big.into_iter(), |&(a, b), o| {
        o.nontrivial_if(a.weight() + b.weight() > 100_000);
        c12_pair("a", a, b, o)
    });
    s.sub(
        "sizes",
        (40_000, 2_000_000),
        "announced sizes over the whole 32-bit range are consistent: a child is as long as base, job and job-part together",
        (client_id(), any::<u32>(), any::<u32>()),
        |(base, i, j), o| {
            o.nontrivial = true;
            let b = ClientID::parse(base).unwrap();
            let sz = |s: Suf| s.real().below(b).get_size();
            let (ji, jj) = (sz(Suf::Job(*i)) - base.len(), sz(Suf::Job(*j)) - base.len());
            ensure!(ji > 0 && jj > 0, "a job adds nothing to its base");
            ensure_eq!(sz(Suf::Own), base.len(), "size of the own ID");
            ensure!(sz(Suf::Child(*i, *j)) > sz(Suf::Job(*i)), "a child is not longer than its job");
            Ok(())
        },
    );
}

// -- C13 ---------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum With {
    Stdin(String),
    Stdout(String),
    Stderr(String),
    Clone,
}

pub fn c13(s: &mut Suite) {
    s.sub(
        "selectors",
        (240_000, 8_000_000),
        "pairs of client IDs that share their first character",
        (client_id(), client_id(), 0u8..6, idx(), "[A-Za-z0-9]").prop_map(|(a, b, how, i, c)| {
            let k = i.of(a.len() + 1);
            let other = match how {
                0 => b,
                1 => a.clone(),
                2 => format!("{}{}", a, b),
                3 if k > 0 => a[..k].to_string(),
                4 => {
                    let mut v = a.clone();
                    v.insert_str(k, &c);
                    v
                }
                5 => a.chars().map(|x| if x.is_lowercase() { x.to_ascii_uppercase() } else { x.to_ascii_lowercase() }).collect(),
                _ => format!("{}{}", b, a),
            };
            (a, other)
        }),
        |(a, b), o| {
            o.nontrivial_if(a.as_bytes()[0] == b.as_bytes()[0]);
            let (x, y) = (ClientID::parse(a).unwrap(), ClientID::parse(b).unwrap());
            let below = b.len() > a.len() && b.as_bytes()[..a.len()] == *a.as_bytes();
            o.class(if below { "below" } else if a == b { "equal" } else { "unrelated" });
            let sb = ClientSelector::StrictlyBelow(x);
            let ab = ClientSelector::AtOrBelow(x);
            ensure_eq!(sb.contains(y), below, "StrictlyBelow({}) contains {}", a, b);
            ensure_eq!(ab.contains(y), below || a == b, "AtOrBelow({}) contains {}", a, b);
            ensure_eq!(sb.clone().contains(y), below, "clone of StrictlyBelow({}) contains {}", a, b);
            ensure!(sb == ClientSelector::StrictlyBelow(x) && sb != ab, "selector equality");
            ensure_eq!(sb == ClientSelector::StrictlyBelow(y), a == b, "selector equality");
            Ok(())
        },
    );
    let sid = || one_of![3 => "[a-z0-9]{0,10}", 1 => "\\PC{0,6}", 1 => Just(String::new())];
    let with = one_of![
        2 => sid().prop_map(With::Stdin),
        2 => sid().prop_map(With::Stdout),
        2 => sid().prop_map(With::Stderr),
        1 => Just(With::Clone),
    ];
    s.sub(
        "identities",
        (120_000, 4_000_000),
        "at least two screen IDs set",
        (client_id(), vec(with, 0..6), sid()),
        |(id, withs, screen), o| {
            let mut i = ClientIdentity::new(&ClientID::parse(id).unwrap());
            let (mut a, mut b, mut c) = (None, None, None);
            let mut clones = vec![];
            for w in withs {
                match w {
                    With::Stdin(s) => {
                        i = i.with_stdin(s);
                        a = Some(s.as_str());
                    }
                    With::Stdout(s) => {
                        i = i.with_stdout(s);
                        b = Some(s.as_str());
                    }
                    With::Stderr(s) => {
                        i = i.with_stderr(s);
                        c = Some(s.as_str());
                    }
                    With::Clone => clones.push((i.clone(), a, b, c)),
                }
            }
            o.nontrivial_if(withs.len() >= 2);
            o.class_if(a.is_none() || b.is_none() || c.is_none(), "some screen ID absent");
            clones.push((i, a, b, c));
            for (i, a, b, c) in &clones {
                ensure_eq!(i.client_id().as_str(), id, "client ID");
                ensure_eq!(i.stdin_screen_id(), *a, "stdin screen");
                ensure_eq!(i.stdout_screen_id(), *b, "stdout screen");
                ensure_eq!(i.stderr_screen_id(), *c, "stderr screen");
            }
            let sc = ScreenIdentity::new(screen);
            ensure_eq!(sc.screen_id(), screen, "screen ID");
            ensure_eq!(sc.clone().screen_id(), screen, "screen ID of clone");
            ensure!(sc == ScreenIdentity::new(screen), "equal screens differ");
            ensure!(sc != ScreenIdentity::new(&format!("{}x", screen)), "different screens are equal");
            Ok(())
        },
    );
}

// -- C14 ---------------------------------------------------------------------------------------------------

const URL_SAFE: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";

fn secret_bits(s: &str) -> Result<Vec<bool>, String> {
    let core = s.trim_end_matches('=');
    ensure!(s.len() - core.len() <= 2, "secret {:?} has odd padding", s);
    let mut bits = vec![];
    for c in core.bytes() {
        let v = URL_SAFE
            .iter()
            .position(|&x| x == c)
            .ok_or_else(|| format!("secret {:?} contains {:?}, which is not URL-safe base64", s, c as char))?;
        bits.extend((0..6).rev().map(|k| v >> k & 1 == 1));
    }
    Ok(bits)
}

fn transports(secret: &str) -> Res {
    let mut buf = [0u8; 1024];
    let n = vt6::msg::posix::ClientHello { secret }.encode(&mut buf).map_err(|e| format!("{:?}", e))?;
    let (m, _) = Message::parse(&buf[..n]).map_err(|e| e.to_string())?;
    let h = vt6::msg::posix::ClientHello::decode_message(&m).ok_or("hello does not decode")?;
    ensure_eq!(h.secret, secret, "secret after a client-hello");
    let n = vt6::msg::core::ClientNew { secret }.encode(&mut buf).map_err(|e| format!("{:?}", e))?;
    let (m, _) = Message::parse(&buf[..n]).map_err(|e| e.to_string())?;
    ensure_eq!(m.to_string(), format!("(core1.client-new {})", secret), "rendering");
    Ok(())
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum SecOp {
    Client,
    Screen,
    CloneClient(u8),
    CloneScreen(u8),
    Threads,
}

/// The rank of a matrix over GF(2).
fn rank(rows: impl Iterator<Item = Vec<u64>>) -> usize {
    // by the position of the highest bit
    let mut base: std::collections::BTreeMap<usize, Vec<u64>> = Default::default();
    for mut v in rows {
        while let Some(w) = v.iter().rposition(|x| *x != 0) {
            let top = w * 64 + 63 - v[w].leading_zeros() as usize;
            match base.get(&top) {
                Some(b) => v.iter_mut().zip(b).for_each(|(x, y)| *x ^= *y),
                None => {
                    base.insert(top, v);
                    break;
                }
            }
        }
    }
    base.len()
}

/// Runs `f` in a forked child.
pub fn in_fork(f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, String> {
    use std::io::{Read, Write};
    use std::os::fd::FromRawFd;
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC), 0);
        let (mut r, mut w) = (std::fs::File::from_raw_fd(fds[0]), std::fs::File::from_raw_fd(fds[1]));
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok().map_or(false, |v| w.write_all(&v).is_ok());
            libc::_exit(if ok { 0 } else { 3 });
        }
        drop(w);
        let mut v = vec![];
        r.read_to_end(&mut v).unwrap();
        let mut status = 0;
        assert_eq!(libc::waitpid(pid, &mut status, 0), pid);
        ensure_eq!(status, 0, "status of the forked child");
        Ok(v)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum ProcOp {
    Gen(u8),
    Thread(Vec<ProcOp>),
    Fork(Vec<ProcOp>),
    /// a process started afresh
    Exec(u8),
}
fn generate(n: usize, out: &mut Vec<String>) {
    for i in 0..n {
        if i % 3 == 2 {
            let c = ScreenCredentials::generate();
            out.push(c.stdin_secret().into());
            out.push(c.stdout_secret().into());
        } else {
            out.push(ClientCredentials::generate().secret().into());
        }
    }
}
pub fn print_secrets(n: usize) {
    let mut v = vec![];
    generate(n, &mut v);
    println!("{}", v.join("\n"));
}
fn lines(text: &[u8]) -> Result<Vec<String>, String> {
    let t = std::str::from_utf8(text).map_err(|e| e.to_string())?;
    Ok(t.lines().map(|l| l.to_string()).collect())
}
fn proc_ops(ops: &[ProcOp], out: &mut Vec<String>) -> Res {
    for op in ops {
        match op {
            ProcOp::Gen(n) => generate(*n as usize, out),
            ProcOp::Thread(ops) => {
                let v = std::thread::scope(|s| {
                    s.spawn(|| {
                        let mut v = vec![];
                        proc_ops(ops, &mut v).map(|_| v)
                    })
                    .join()
                    .map_err(|_| "thread panicked".to_string())?
                })?;
                out.extend(v);
            }
            ProcOp::Fork(ops) => {
                let text = in_fork(|| {
                    let mut v = vec![];
                    proc_ops(ops, &mut v).map(|_| v.join("\n").into_bytes()).unwrap_or_else(|e| e.into_bytes())
                })?;
                out.extend(lines(&text)?);
            }
            ProcOp::Exec(n) => {
                let exe = std::env::current_exe().map_err(|e| e.to_string())?;
                let r = std::process::Command::new(exe).arg("--secrets").arg(n.to_string()).output().map_err(|e| e.to_string())?;
                ensure!(r.status.success(), "generating {} secrets in a new process: {:?}", n, r);
                out.extend(lines(&r.stdout)?);
            }
        }
    }
    Ok(())
}

pub fn c14(s: &mut Suite) {
    let op = one_of![
        4 => Just(SecOp::Client), 4 => Just(SecOp::Screen),
        1 => any::<u8>().prop_map(SecOp::CloneClient), 1 => any::<u8>().prop_map(SecOp::CloneScreen),
    ];
    let ever: std::cell::RefCell<HashSet<String>> = Default::default();
    s.sub(
        "histories",
        (16_000, 300_000),
        "histories generating at least 4 secrets; distinctness is judged over all histories of the run",
        (vec(op, 1..20), proptest::bool::weighted(0.02)),
        |(ops, threads), o| {
            let (mut cs, mut ss): (Vec<(ClientCredentials, String)>, Vec<(ScreenCredentials, String, String)>) = (vec![], vec![]);
            let mut new = vec![];
            for op in ops {
                match op {
                    SecOp::Client => {
                        let c = ClientCredentials::generate();
                        let t = c.secret().to_string();
                        new.push(t.clone());
                        cs.push((c, t));
                    }
                    SecOp::Screen => {
                        let c = ScreenCredentials::generate();
                        let (a, b) = (c.stdin_secret().to_string(), c.stdout_secret().to_string());
                        new.push(a.clone());
                        new.push(b.clone());
                        ss.push((c, a, b));
                    }
                    SecOp::CloneClient(k) if !cs.is_empty() => {
                        let c = cs[*k as usize % cs.len()].clone();
                        cs.push(c);
                    }
                    SecOp::CloneScreen(k) if !ss.is_empty() => {
                        let c = ss[*k as usize % ss.len()].clone();
                        ss.push(c);
                    }
                    _ => {}
                }
            }
            if *threads {
                let hs: Vec<_> = (0..4)
                    .map(|_| std::thread::spawn(|| (0..50).map(|_| ClientCredentials::generate().secret().to_string()).collect::<Vec<_>>()))
                    .collect();
                for h in hs {
                    new.extend(h.join().map_err(|_| "thread panicked")?);
                }
                o.class("several threads");
            }
            o.nontrivial_if(new.len() >= 4);
            for (c, t) in &cs {
                ensure_eq!(c.secret(), t, "secret on a later query or of a clone");
            }
            for (c, a, b) in &ss {
                ensure_eq!(c.stdin_secret(), a, "stdin secret on a later query or of a clone");
                ensure_eq!(c.stdout_secret(), b, "stdout secret on a later query or of a clone");
            }
            let mut ever = ever.borrow_mut();
            for t in new {
                let bits = secret_bits(&t)?;
                ensure!(bits.len() >= 192, "secret {:?} has only {} bits", t, bits.len());
                transports(&t)?;
                ensure!(ever.insert(t.clone()), "secret {:?} was generated twice", t);
            }
            Ok(())
        },
    );
    let leaf = one_of![6 => (1u8..40).prop_map(ProcOp::Gen), 1 => (1u8..40).prop_map(ProcOp::Exec)];
    let ops = leaf.prop_recursive(3, 12, 4, |inner| {
        one_of![
            2 => inner.clone(),
            1 => vec(inner.clone(), 1..4).prop_map(ProcOp::Thread),
            2 => vec(inner, 1..4).prop_map(ProcOp::Fork),
        ]
    });
    s.sub(
        "processes",
        (2_400, 60_000),
        "secrets generated in at least two processes; distinctness is judged over all histories of the run",
        vec(ops, 2..6),
        |ops, o| {
            let mut new = vec![];
            proc_ops(ops, &mut new)?;
            fn has(ops: &[ProcOp], what: &dyn Fn(&ProcOp) -> bool) -> bool {
                ops.iter().any(|op| what(op) || matches!(op, ProcOp::Thread(v) | ProcOp::Fork(v) if has(v, what)))
            }
            let fork = has(ops, &|op| matches!(op, ProcOp::Fork(_)));
            let exec = has(ops, &|op| matches!(op, ProcOp::Exec(_)));
            o.nontrivial_if(fork || exec);
            o.class_if(fork, "forked");
            o.class_if(exec, "new process");
            let mut ever = ever.borrow_mut();
            for t in new {
                let bits = secret_bits(&t)?;
                ensure!(bits.len() >= 192, "secret {:?} has only {} bits", t, bits.len());
                ensure!(ever.insert(t.clone()), "secret {:?} was generated twice", t);
            }
            Ok(())
        },
    );
    // statistics over a population: every bit varies, is balanced, and is independent of the bits of related secrets
    let runs = if s.tier == Tier::Quick { 8 } else { 160u32 };
    s.each("bits", "populations of 4000 client secrets and 4000 screens", 0..runs, |_, o| {
        o.nontrivial = true;
        const N: usize = 4000;
        let mut pops: [Vec<Vec<bool>>; 3] = Default::default();
        for _ in 0..N {
            pops[0].push(secret_bits(ClientCredentials::generate().secret())?);
            let c = ScreenCredentials::generate();
            pops[1].push(secret_bits(c.stdin_secret())?);
            pops[2].push(secret_bits(c.stdout_secret())?);
        }
        // no linear dependency among the bits of one secret, of the two secrets of a screen, or of consecutive ones
        let free = |parts: &[(usize, usize)]| -> usize {
            let rows = (0..N - 1).map(|i| {
                let mut v: Vec<u64> = vec![1];
                let mut at = 1;
                for (p, shift) in parts {
                    for b in &pops[*p][i + shift] {
                        if at % 64 == 0 {
                            v.push(0);
                        }
                        v[at / 64] |= (*b as u64) << (at % 64);
                        at += 1;
                    }
                }
                v
            });
            rank(rows) - 1
        };
        for (parts, what) in [
            (&[(0, 0)][..], "a client secret"),
            (&[(1, 0)], "a stdin secret"),
            (&[(2, 0)], "a stdout secret"),
            (&[(1, 0), (2, 0)], "the two secrets of a screen"),
            (&[(0, 0), (0, 1)], "two client secrets generated in a row"),
            (&[(0, 0), (1, 0), (2, 0), (0, 1)], "the secrets of a client, a screen and the next client"),
        ] {
            let got = free(parts);
            ensure!(got >= 192 * parts.len(), "of the bits of {}, only {} are independent of each other over {} samples", what, got, N);
        }
        let dev = 8.0 * (N as f64).sqrt() / 2.0;
        let columns = |p: &Vec<Vec<bool>>| -> Vec<Vec<u64>> {
            let w = p.iter().map(|b| b.len()).min().unwrap();
            (0..w)
                .map(|k| {
                    let mut c = vec![0u64; (N + 63) / 64];
                    for (i, b) in p.iter().enumerate() {
                        if b[k] {
                            c[i / 64] |= 1 << (i % 64);
                        }
                    }
                    c
                })
                .collect()
        };
        let cols: Vec<Vec<Vec<u64>>> = pops.iter().map(columns).collect();
        let names = ["client", "stdin", "stdout"];
        let mut varying = vec![];
        for (n, cs) in cols.iter().enumerate() {
            let mut good = vec![];
            for c in cs {
                let ones: u32 = c.iter().map(|w| w.count_ones()).sum();
                if (ones as f64 - N as f64 / 2.0).abs() <= dev {
                    good.push(c.clone());
                }
            }
            ensure!(
                good.len() >= 192,
                "only {} of the {} bits of a {} secret vary freely over {} secrets",
                good.len(),
                cs.len(),
                names[n],
                N
            );
            varying.push(good);
        }
        // bit of one secret against every bit of the other secret of the same screen, and of the next secret,
        // and every other bit of the same secret
        let shift = |c: &Vec<u64>| -> Vec<u64> {
            let mut r = vec![0u64; c.len()];
            for i in 0..N - 1 {
                let j = i + 1;
                if c[j / 64] >> (j % 64) & 1 == 1 {
                    r[i / 64] |= 1 << (i % 64);
                }
            }
            r
        };
        let corr = |a: &[Vec<u64>], b: &[Vec<u64>], same: bool, what: &str| -> Res {
            for (i, x) in a.iter().enumerate() {
                for (j, y) in b.iter().enumerate() {
                    if same && i == j {
                        continue;
                    }
                    let d: u32 = x.iter().zip(y).map(|(p, q)| (p ^ q).count_ones()).sum();
                    ensure!(
                        (d as f64 - N as f64 / 2.0).abs() <= dev + 2.0,
                        "bit {} determines bit {} of {} (agree in {} of {})",
                        i,
                        j,
                        what,
                        N as u32 - d,
                        N
                    );
                }
            }
            Ok(())
        };
        corr(&varying[1], &varying[2], false, "the other secret of the same screen")?;
        let next: Vec<Vec<u64>> = varying[0].iter().map(shift).collect();
        corr(&varying[0], &next, false, "the next secret")?;
        for k in 0..3 {
            corr(&varying[k], &varying[k], true, "the same secret")?;
        }
        let next: Vec<Vec<u64>> = varying[1].iter().map(shift).collect();
        corr(&varying[2], &next, false, "the next screen's secret")?;
        Ok(())
    });
}
