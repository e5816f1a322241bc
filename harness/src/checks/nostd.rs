//! C29: the same operations in a build with and a build without the standard library.

use super::messages::pre;
use crate::fw::*;
use crate::gen::*;
use crate::probe;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Ask {
    kind: u8,
    items: Vec<B>,
}

struct Other {
    child: Child,
    to: ChildStdin,
    from: ChildStdout,
}
thread_local! { static OTHER: RefCell<Option<Other>> = const { RefCell::new(None) }; }

fn start() -> Other {
    let exe = std::env::var_os("VT6CHECK_NOSTD").expect("VT6CHECK_NOSTD");
    let mut child =
        Command::new(exe).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("cannot start the other build");
    let (to, from) = (child.stdin.take().unwrap(), child.stdout.take().unwrap());
    Other { child, to, from }
}

/// The answer of the build without the standard library.
fn elsewhere(req: &[u8]) -> Result<String, String> {
    OTHER.with(|o| {
        let mut o = o.borrow_mut();
        let x = o.get_or_insert_with(start);
        let go = |x: &mut Other| -> std::io::Result<String> {
            x.to.write_all(&(req.len() as u32).to_le_bytes())?;
            x.to.write_all(req)?;
            x.to.flush()?;
            let mut fd = libc::pollfd { fd: std::os::fd::AsRawFd::as_raw_fd(&x.from), events: libc::POLLIN, revents: 0 };
            if unsafe { libc::poll(&mut fd, 1, 120_000) } != 1 {
                return Err(std::io::Error::new(std::io::ErrorKind::TimedOut, "no answer within 120 s"));
            }
            let mut n = [0u8; 4];
            x.from.read_exact(&mut n)?;
            let mut v = vec![0; u32::from_le_bytes(n) as usize];
            x.from.read_exact(&mut v)?;
            Ok(String::from_utf8(v).unwrap())
        };
        match go(x) {
            Ok(s) => Ok(s),
            Err(e) => {
                let mut x = o.take().unwrap();
                let _ = x.child.kill();
                let st = x.child.wait();
                Err(format!("the build without the standard library fails: {} ({:?})", e, st))
            }
        }
    })
}

fn c29_case(a: &Ask, o: &mut Obs, interesting: bool) -> Res {
    let items: Vec<&[u8]> = a.items.iter().map(|b| &b.0[..]).collect();
    let req = probe::request(a.kind, &items);
    let here = probe::answer(&req);
    // a panic on both sides alike is none of this property's business
    take_panics();
    let there = elsewhere(&req)?;
    o.nontrivial_if(interesting && !here.is_empty() && !here.starts_with("panic"));
    o.class_if(a.kind == 0 && !here.starts_with("Parse error"), "well-formed message");
    o.class_if(a.kind == 0 && here.starts_with("Parse error"), "parse error");
    o.class_if((a.kind == 3 || a.kind == 4) && here.contains("untouched"), "formatted");
    o.class_if((a.kind == 3 || a.kind == 4) && here.contains("TooSmall"), "too small");
    o.class_if(here.starts_with("panic"), "panic on both sides");
    if here != there {
        let k = here.bytes().zip(there.bytes()).take_while(|(a, b)| a == b).count();
        let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[k.saturating_sub(60).min(s.len())..(k + 120).min(s.len())]).into_owned();
        return Err(format!("with the standard library: ...{:?}, without: ...{:?}", cut(&here), cut(&there)));
    }
    Ok(())
}

fn b(s: impl ToString) -> B {
    B(s.to_string().into_bytes())
}

pub fn c29(s: &mut Suite) {
    set_closed_system(false);
    let f = |a: &Ask, o: &mut Obs| c29_case(a, o, true);
    let wire = one_of![
        3 => parser_input(),
        3 => msg(4).prop_map(|m| B(m.wire())),
        3 => pre(30).prop_map(|p| B(p.msg().wire())),
        1 => msg_near(1024).prop_map(|m| B(m.wire())),
        1 => (select(PREDEF.to_vec()), vec(argish(), 0..5)).prop_map(|(t, a)| B(Msg { ty: t.into(), args: a }.wire())),
    ];
    s.sub("parse", (60_000, 2_000_000), "any parser input", wire.prop_map(|w| Ask { kind: 0, items: vec![w] }), f);
    let arg = one_of![3 => argish(), 1 => arg_bytes(), 1 => int_text().prop_map(|(_, t)| b(t)), 1 => select(vec!["t", "f", ""]).prop_map(b)];
    s.sub("decode", (60_000, 2_000_000), "any argument", arg.prop_map(|a| Ask { kind: 1, items: vec![a] }), f);
    let name = || one_of![3 => argish(), 1 => client_id().prop_map(b), 1 => module().prop_map(b), 2 => version().prop_map(b), 2 => scoped().prop_map(b), 1 => msg_type().prop_map(b)];
    let two = (name(), name(), any::<bool>()).prop_map(|(x, y, same)| if same { (x.clone(), x) } else { (x, y) });
    s.sub(
        "identifiers",
        (40_000, 1_500_000),
        "pairs of strings of which at least one is an identifier of some class",
        two.prop_map(|(x, y)| Ask { kind: 2, items: vec![x, y] }),
        f,
    );
    let size = || one_of![2 => 0usize..80, 2 => Just(1024usize), 1 => 1000usize..1050, 1 => 0usize..1500];
    let fm = (one_of![3 => msg(5), 1 => msg_near(1024)], size(), 0usize..4).prop_map(|(m, n, exact)| {
        let n = if exact == 0 { (m.wire().len() + 3).saturating_sub(n % 7) } else { n };
        let mut items = vec![b(n), b(&m.ty)];
        items.extend(m.args);
        Ask { kind: 3, items }
    });
    s.sub("format", (40_000, 1_500_000), "any message and buffer size", fm, f);
    let kinds = (one_of![3 => pre(40), 1 => pre(1000)], size(), 0usize..3).prop_map(|(p, n, exact)| {
        let m = p.msg();
        let n = if exact == 0 { (m.wire().len() + 3).saturating_sub(n % 7) } else { n };
        let k = match p.kind() {
            "want" => 0,
            "have" if m.args[0].contains(&b'.') => 1,
            "have" => 2,
            "nope" => 3,
            k => PREDEF.iter().position(|x| *x == k).unwrap() + 1,
        };
        let mut items = vec![b(n), b(k)];
        items.extend(m.args);
        Ask { kind: 4, items }
    });
    s.sub("predefined", (40_000, 1_500_000), "any predefined message and buffer size", kinds, f);
    s.sub("integers", (40_000, 1_500_000), "integers of some width", int_text().prop_map(|(_, t)| Ask { kind: 5, items: vec![b(t)] }), f);
    let idx = || one_of![3 => 0u32..300, 1 => 0u32..4000];
    let ids = (client_id(), 0u8..4, idx(), idx()).prop_map(|(c, k, i, j)| Ask { kind: 6, items: vec![b(c), b(k), b(i), b(j)] });
    s.sub("client IDs", (20_000, 600_000), "derived client IDs", ids, f);
}
