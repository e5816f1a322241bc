//! C01-C06, C30: message formatting, parsing, iteration, rendering.

use crate::fw::*;
use crate::gen::*;
use crate::refmodel::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;
use vt6::common::core::msg::*;
use vt6::common::core::*;

pub fn fmt_msg(m: &Msg, buf: &mut [u8]) -> Result<usize, BufferTooSmallError> {
    let mut f = MessageFormatter::new(buf, &m.ty, m.args.len());
    for a in &m.args {
        f.add_argument(&a.0[..]);
    }
    f.finalize()
}

/// Compares one parse with the reference verdict.
pub fn check_parse(inp: &[u8]) -> Result<Verdict, String> {
    let want = ref_parse(inp);
    match (Message::parse(inp), &want) {
        (Ok((m, len)), Verdict::Msg { items, len: wl }) => {
            ensure_eq!(len, *wl, "reported message length");
            let ty = &inp[items[0].0..items[0].1];
            ensure_eq!(m.parsed_type().as_str().as_bytes(), ty, "message type");
            let got: Vec<&[u8]> = m.arguments().collect();
            let exp: Vec<&[u8]> = items[1..].iter().map(|&(a, b)| &inp[a..b]).collect();
            ensure_eq!(got, exp, "arguments");
        }
        (Err(e), Verdict::Err { kind, offset }) => {
            ensure_eq!(e.kind.to_str(), *kind, "error kind (offset {})", e.offset);
            ensure_eq!(e.offset, *offset, "error offset of {:?}", kind);
            ensure_eq!(e.is_incomplete(), *kind == EOF, "is_incomplete()");
            ensure_eq!(e.buffer, inp, "buffer in the error");
            ensure_eq!(e.to_string(), format!("Parse error at offset {}: {}", offset, kind), "error text");
        }
        (Ok((m, len)), Verdict::Err { kind, offset }) => {
            return Err(format!("accepted {} ({} bytes), expected {:?} at {}", m, len, kind, offset))
        }
        (Err(e), Verdict::Msg { len, .. }) => {
            return Err(format!("rejected with {:?} at {}, but the first {} bytes are a message", e.kind, e.offset, len))
        }
    }
    Ok(want)
}

fn verdict_class(v: &Verdict, inp: &[u8], o: &mut Obs) {
    match v {
        Verdict::Msg { len, .. } => {
            o.class("message");
            o.class_if(*len < inp.len(), "message with trailing bytes");
            o.class_if(*len > 1024, "message over 1024 bytes");
        }
        Verdict::Err { kind, .. } => o.class(kind),
    }
}

// -- C01 ---------------------------------------------------------------------------------------------------

pub fn c01(s: &mut Suite) {
    let f = |(m, tail): &(Msg, B), o: &mut Obs| -> Res {
        let wire = m.wire();
        if wire.len() > 1024 {
            o.class("too long, skipped");
            return Ok(());
        }
        o.nontrivial_if(!m.args.is_empty());
        o.class_if(wire.len() > 1000, "over 1000 bytes");
        o.class_if(m.args.len() >= 9, "two-digit item count");
        o.class_if(m.args.iter().any(|a| a.iter().any(|b| b"{}|:,".contains(b))), "argument with wire syntax");
        o.class_if(m.args.iter().any(|a| a.len() >= 100), "three-digit length");
        let mut buf = vec![0xAA; 1100];
        let n = fmt_msg(m, &mut buf).map_err(|e| format!("formatting failed: {:?} for {} bytes", e, wire.len()))?;
        ensure_eq!(B(buf[..n].to_vec()), B(wire.clone()), "wire form");
        buf.truncate(n);
        buf.extend_from_slice(tail);
        let (p, len) = Message::parse(&buf).map_err(|e| format!("formatted message does not parse: {}", e))?;
        ensure_eq!(len, n, "parsed length");
        ensure_eq!(p.parsed_type().as_str(), m.ty, "message type");
        let got: Vec<B> = p.arguments().map(|a| B(a.to_vec())).collect();
        ensure_eq!(got, m.args, "arguments");
        Ok(())
    };
    let tail = || one_of![2 => Just(vec![]), 2 => wire_soup(0..8), 1 => vec(any::<u8>(), 0..8)].prop_map(B);
    s.sub("roundtrip", (240_000, 8_000_000), "messages with at least one argument, at most 1024 bytes", (msg(12), tail()), f);
    s.sub(
        "near_limit",
        (40_000, 1_000_000),
        "messages with at least one argument and a wire form of 1011..=1024 bytes",
        (msg_near(1017), tail()),
        f,
    );
    s.sub(
        "many_args",
        (24_000, 500_000),
        "messages with up to 330 short arguments",
        ((msg_type(), vec("[a-z{]{0,1}".prop_map(|s| B(s.into_bytes())), 0..330)).prop_map(|(ty, args)| Msg { ty, args }), tail()),
        f,
    );
    s.each(
        "argument_lengths",
        "one argument of every length from 0 to 1005",
        (0..1005usize).map(|n| (n, if n % 3 == 0 { b'{' } else { 0xff })),
        |&(n, b), o| f(&(Msg::new("core1.set", &[&vec![b; n]]), B(b"{".to_vec())), o),
    );
    s.each("argument_counts", "every number of empty arguments from 0 to 330", 0..330usize, |&n, o| {
        f(&(Msg { ty: "a1.b".into(), args: vec![B(vec![]); n] }, B(vec![])), o)
    });
}

// -- C02 ---------------------------------------------------------------------------------------------------

/// One of the predefined messages, with owned fields.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum AnyMsg {
    Generic(Msg),
    Predef(crate::checks::messages::Pre),
}
impl AnyMsg {
    fn wire(&self) -> Vec<u8> {
        match self {
            AnyMsg::Generic(m) => m.wire(),
            AnyMsg::Predef(p) => p.msg().wire(),
        }
    }
    fn format(&self, buf: &mut [u8]) -> Result<usize, BufferTooSmallError> {
        match self {
            AnyMsg::Generic(m) => fmt_msg(m, buf),
            AnyMsg::Predef(p) => p.encode(buf),
        }
    }
}

fn c02_one(m: &AnyMsg, size: usize, o: &mut Obs) -> Res {
    let wire = m.wire();
    let need = wire.len();
    let limit = size.min(1024);
    let mut area = vec![0xC3u8; size + 32];
    let got = m.format(&mut area[16..16 + size]);
    ensure!(area[..16].iter().all(|&b| b == 0xC3), "bytes before the buffer were written");
    ensure!(area[16 + size..].iter().all(|&b| b == 0xC3), "bytes after the buffer were written");
    if need <= limit {
        ensure_eq!(got, Ok(need), "message of {} bytes into buffer of {}", need, size);
        ensure_eq!(B(area[16..16 + need].to_vec()), B(wire), "wire form in buffer of {}", size);
        ensure!(
            area[16 + need..16 + size].iter().all(|&b| b == 0xC3),
            "bytes after the returned length {} were touched in a buffer of {}",
            need,
            size
        );
        o.class("fits");
    } else {
        ensure_eq!(got, Err(BufferTooSmallError(need - limit)), "message of {} bytes into buffer of {}", need, size);
        ensure!(
            area[16 + limit..16 + size].iter().all(|&b| b == 0xC3),
            "bytes beyond the 1024-byte limit were touched in a buffer of {}",
            size
        );
        o.class("too small");
        o.class_if(size >= need, "over 1024 with ample buffer");
    }
    o.nontrivial_if(size > 0 && (need as i64 - size as i64).abs() <= 16 || need > 1000 || need > size);
    Ok(())
}

pub fn c02(s: &mut Suite) {
    let any_msg = || {
        one_of![
            3 => msg(10).prop_map(AnyMsg::Generic),
            2 => msg_near(1024).prop_map(AnyMsg::Generic),
            3 => crate::checks::messages::pre(12).prop_map(AnyMsg::Predef),
            1 => crate::checks::messages::pre(600).prop_map(AnyMsg::Predef),
            1 => crate::checks::messages::pre(1030).prop_map(AnyMsg::Predef),
            1 => (msg_type(), one_of![900usize..6000, crate::lit::lit_size(9000)]).prop_map(|(ty, n)| AnyMsg::Generic(Msg { ty, args: vec![B(vec![b'x'; n])] })),
        ]
    };
    s.sub(
        "sizes",
        (240_000, 8_000_000),
        "message larger than the buffer, or over 1000 bytes, or buffer within 16 bytes of the required size",
        (any_msg(), one_of![5 => (-20i64..20).prop_map(|d| (true, d)), 2 => (0i64..1200).prop_map(|d| (false, d)), 1 => (0i64..6000).prop_map(|d| (false, d)), 1 => crate::lit::lit_size(9000).prop_map(|n| (false, n as i64))]),
        |(m, (rel, d)), o| {
            let size = if *rel { (m.wire().len() as i64 + d).max(0) } else { *d } as usize;
            c02_one(m, size, o)
        },
    );
    let long = one_of![3 => 1000usize..5000, 3 => 5000usize..70_000, 2 => 65_400usize..65_600, 1 => 70_000usize..400_000];
    s.sub(
        "huge",
        (4_000, 100_000),
        "more than 5000 bytes",
        (msg_type(), vec(one_of![1 => 0usize..20, 2 => long], 1..4), 0usize..1100, one_of![3 => Just(None), 1 => (-20i64..20).prop_map(Some)]),
        |(ty, lens, size, rel), o| {
            let m = AnyMsg::Generic(Msg { ty: ty.clone(), args: lens.iter().map(|n| B(vec![b'x'; *n])).collect() });
            let need = m.wire().len();
            let size = rel.map_or(*size, |d| (need as i64 + d).max(0) as usize);
            c02_one(&m, size, o)?;
            o.nontrivial = need > 5000;
            o.class_if(need > 65_536, "more than 64 KB");
            Ok(())
        },
    );
    s.sub(
        "all_sizes",
        (8_000, 120_000),
        "one message into every buffer size from 0 to required+3",
        one_of![msg(5).prop_map(AnyMsg::Generic), crate::checks::messages::pre(10).prop_map(AnyMsg::Predef)],
        |m, o| {
            for size in 0..m.wire().len() + 4 {
                c02_one(m, size, o)?;
            }
            Ok(())
        },
    );
    s.each(
        "limit",
        "messages of every length from 990 to 1060 and buffers of 1020..=1060, 2048 and 4072 bytes",
        (965..1035usize).flat_map(|n| (1020..1060usize).chain([2048, 4072, 1023, 1024, 1025]).map(move |b| (n, b))),
        |&(n, b), o| c02_one(&AnyMsg::Generic(Msg::new("core1.set", &[&vec![b'q'; n]])), b, o),
    );
}

// -- C03 / C04 ---------------------------------------------------------------------------------------------

pub fn c03(s: &mut Suite) {
    let f = |inp: &B, o: &mut Obs| -> Res {
        let v = check_parse(inp)?;
        verdict_class(&v, inp, o);
        o.nontrivial_if(inp.len() >= 4 && inp[0] == b'{');
        Ok(())
    };
    s.sub("parse", (480_000, 20_000_000), "inputs of at least 4 bytes that begin with the message opener", parser_input(), f);
    s.raw("parse_bytes", "inputs of at least 4 bytes that begin with the message opener", parser_input().prop_map(|b| b.0).boxed(), |d| B(d.to_vec()), f);
    // every string over a small alphabet, up to a length
    let alphabet: &[u8] = b"{}|:,013t";
    let maxlen = if s.tier == Tier::Quick { 5 } else { 6 };
    s.each(
        "all_short",
        "every string over the alphabet {}|:,013t up to length 5 (thorough: 6), after each of 3 heads",
        (0..=maxlen as u32).flat_map(|n| (0..(alphabet.len() as u64).pow(n)).map(move |k| (n, k))).step_by(1).collect::<Vec<_>>().chunks(512).map(|c| (c[0], c.len() as u64)).collect::<Vec<_>>().into_iter(),
        |&((n0, k0), cnt), o| {
            let (mut n, mut k) = (n0, k0);
            for _ in 0..cnt {
                if k >= 9u64.pow(n) {
                    n += 1;
                    k = 0;
                }
                let mut tail = vec![];
                let mut x = k;
                for _ in 0..n {
                    tail.push(b"{}|:,013t"[(x % 9) as usize]);
                    x /= 9;
                }
                for head in [&b""[..], b"{1|", b"{3|4:want,"] {
                    let mut inp = head.to_vec();
                    inp.extend_from_slice(&tail);
                    let v = check_parse(&inp).map_err(|e| format!("{} for input {:?}", e, B(inp.clone())))?;
                    verdict_class(&v, &inp, o);
                }
                k += 1;
            }
            o.nontrivial = true;
            Ok(())
        },
    );
    s.sub(
        "long",
        (1_600, 40_000),
        "well-formed messages of 100 kB to 4 MB, and the same broken at one place",
        (msg_type(), vec((0usize..200_000, any::<u8>()), 1..20), crate::oneof::opt(edit())),
        |(ty, parts, e), o| {
            let m = Msg { ty: ty.clone(), args: parts.iter().map(|&(n, b)| B(vec![b; n])).collect() };
            let mut w = m.wire();
            if let Some(e) = e {
                apply_edits(&mut w, &[e.clone()]);
            }
            let v = check_parse(&w)?;
            verdict_class(&v, &w, o);
            o.nontrivial_if(w.len() > 100_000);
            Ok(())
        },
    );
}

pub fn c04(s: &mut Suite) {
    let f = |(inp, ext): &(B, B), o: &mut Obs| -> Res {
        let mut long = inp.0.clone();
        long.extend_from_slice(ext);
        let (a, b) = (Message::parse(inp), Message::parse(&long));
        match a {
            Ok((m, n)) => {
                let (m2, n2) = b.map_err(|e| format!("message no longer accepted after extension: {}", e))?;
                ensure_eq!(n2, n, "length after extension");
                ensure_eq!(m2.parsed_type().as_str(), m.parsed_type().as_str(), "type after extension");
                let (x, y): (Vec<_>, Vec<_>) = (m.arguments().collect(), m2.arguments().collect());
                ensure_eq!(y, x, "arguments after extension");
                // strict prefixes of the message: all if short, else a sample including the ends
                let step = (n / 200).max(1);
                for k in (0..n).filter(|k| *k < 40 || n - *k < 40 || k % step == 0) {
                    match Message::parse(&inp[..k]) {
                        Err(e) if e.is_incomplete() => {}
                        Err(e) => return Err(format!("prefix of length {} of a message: {}", k, e)),
                        Ok(_) => return Err(format!("prefix of length {} of a message of {} was accepted", k, n)),
                    }
                }
                o.class("message");
                o.nontrivial = true;
            }
            Err(ref e) if !e.is_incomplete() => {
                o.class("broken");
                o.class(e.kind.to_str());
                o.nontrivial_if(e.offset > 2);
                match b {
                    Err(e2) if e2.kind == e.kind => {}
                    Err(e2) => return Err(format!("rejected as {:?}, extension as {:?}", e.kind, e2.kind)),
                    Ok(_) => return Err(format!("rejected as {:?}, but an extension is accepted", e.kind)),
                }
            }
            Err(_) => {
                o.class("incomplete");
                // "incomplete" promises that some continuation is a message
                match completion(inp) {
                    Some(c) => {
                        o.nontrivial_if(inp.len() > 2);
                        let mut full = inp.0.clone();
                        full.extend_from_slice(&c);
                        ensure!(
                            matches!(Message::parse(&full), Ok((_, n)) if n == full.len()),
                            "incomplete input, but its completion {:?} is not accepted: {:?}",
                            B(full.clone()),
                            Message::parse(&full).err().map(|e| e.to_string())
                        );
                    }
                    // no short one: then the grammar must at least not have been violated yet
                    None => {
                        ensure!(
                            matches!(ref_parse(inp), Verdict::Err { kind: EOF, .. }),
                            "reported as incomplete though already broken: {:?}",
                            inp
                        );
                        o.class("no short completion")
                    }
                }
            }
        }
        Ok(())
    };
    let ext = || one_of![3 => edit_byte().prop_map(|b| vec![b]), 2 => wire_soup(1..10), 1 => msg(3).prop_map(|m| m.wire())].prop_map(B);
    s.sub(
        "extension",
        (240_000, 10_000_000),
        "messages; broken inputs with the error past byte 2; incomplete inputs over 2 bytes with a completion",
        (parser_input(), ext()),
        f,
    );
    s.raw(
        "extension_bytes",
        "the same; the first byte tells where the extension begins",
        (any::<u8>(), parser_input()).prop_map(|(k, b)| [&[k][..], &b].concat()).boxed(),
        |d| {
            let (k, d) = d.split_first().map_or((0, d), |(k, d)| (*k as usize, d));
            let at = if k > 200 { d.len() - (k - 200).min(d.len()) } else { k.min(d.len()) };
            (B(d[..at].to_vec()), B(d[at..].to_vec()))
        },
        f,
    );
    s.sub(
        "own_tail",
        (120_000, 5_000_000),
        "the same, where the input is a cut-off of the extended input",
        (parser_input(), idx()).prop_map(|(v, i)| {
            let k = i.of(v.len() + 1);
            (B(v[..k].to_vec()), B(v[k..].to_vec()))
        }),
        f,
    );
}

/// Bytes that complete an incomplete message, if there are any and they are not too many.
fn completion(inp: &[u8]) -> Option<Vec<u8>> {
    let mut out: Vec<u8> = vec![];
    let mut pos = 0;
    // a number at `pos`; true if the input ended right after its digits (or before them)
    let number = |pos: &mut usize| -> Option<(Option<usize>, bool)> {
        let n = inp[*pos..].iter().take_while(|b| b.is_ascii_digit()).count();
        let text = std::str::from_utf8(&inp[*pos..*pos + n]).unwrap();
        *pos += n;
        Some((if n == 0 { None } else { Some(text.parse().ok()?) }, *pos == inp.len()))
    };
    let whole_type = |n: usize, have: &[u8]| -> Option<Vec<u8>> {
        let missing = n.checked_sub(have.len())?;
        ["want", "ant", "nt", "t", "have", "ave", "ve", "e", "nope", "ope", "pe", "", "a1.b", "1.b", ".b", "b"].iter().find_map(|p| {
            let mut f = p.as_bytes().to_vec();
            if f.len() < missing && p.ends_with('b') {
                f.resize(missing, b'b');
            }
            let mut t = have.to_vec();
            t.extend_from_slice(&f);
            if f.len() == missing && is_message_type(&t) {
                Some(f)
            } else {
                None
            }
        })
    };
    if inp.is_empty() {
        return Some(b"{1|4:want,}".to_vec());
    }
    pos += 1;
    let (count, at_end) = number(&mut pos)?;
    let mut left = match count {
        None => return Some(b"1|4:want,}".to_vec()),
        Some(0) => return None,
        Some(c) => c,
    };
    if left > 5000 {
        return None;
    }
    if at_end {
        out.push(b'|');
    } else {
        pos += 1;
    }
    let mut first = true;
    while left > 0 {
        let (len, at_end) = number(&mut pos)?;
        let len = match len {
            None => {
                let n = if first { 4 } else { 0 };
                out.push(b'0' + n as u8);
                n
            }
            Some(n) => n,
        };
        if len > 100_000 {
            return None;
        }
        if at_end {
            out.push(b':');
        } else {
            pos += 1;
        }
        let have = &inp[pos.min(inp.len())..(pos + len).min(inp.len())];
        pos += have.len();
        if first {
            out.extend(whole_type(len, have)?);
        } else {
            out.extend(vec![b'}'; len - have.len()]);
        }
        if pos >= inp.len() {
            out.push(b',');
        } else {
            pos += 1;
        }
        first = false;
        left -= 1;
    }
    out.push(b'}');
    Some(out)
}

// -- C05 ---------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum ItOp {
    Next,
    Nth(u8),
    Len,
    SizeHint,
    Clone,
    Take(u8),
    Skip(u8),
    Enumerate,
    Peekable,
    StepBy(u8),
    Chain,
    Zip(u8),
    Collect,
    Count,
    Last,
    Fold,
    ByRefTake(u8),
    Fuse,
    Position(u8),
}

pub fn c05(s: &mut Suite) {
    use ItOp::*;
    let op = one_of![
        6 => Just(Next), 2 => (0u8..4).prop_map(Nth), 3 => Just(Len), 3 => Just(SizeHint), 2 => Just(Clone),
        1 => (0u8..6).prop_map(Take), 1 => (0u8..6).prop_map(Skip), 1 => Just(Enumerate), 1 => Just(Peekable),
        1 => (1u8..4).prop_map(StepBy), 1 => Just(Chain), 1 => (0u8..6).prop_map(Zip), 2 => Just(Collect), 1 => Just(Count), 1 => Just(Last),
        1 => Just(Fold), 1 => (0u8..4).prop_map(ByRefTake), 1 => Just(Fuse), 1 => any::<u8>().prop_map(Position),
    ];
    let f = |(m, tail, ops): &(Msg, B, Vec<(u8, ItOp)>), o: &mut Obs| -> Res {
        let mut wire = m.wire();
        wire.extend_from_slice(tail);
        let (p, _) = Message::parse(&wire).map_err(|e| e.to_string())?;
        let args: VecDeque<&[u8]> = m.args.iter().map(|a| &a.0[..]).collect();
        let mut its = vec![(p.arguments(), args)];
        for (n, (which, op)) in ops.iter().enumerate() {
            let k = *which as usize % its.len();
            let w = format!("step {} ({:?} on iterator {} with {} arguments left)", n, op, k, its[k].1.len());
            let (it, model) = &mut its[k];
            macro_rules! adapter {
                ($a:expr, $b:expr) => {{
                    let (a, b) = ($a, $b);
                    let exp: Vec<_> = b.collect();
                    ensure_eq!(a.size_hint(), (exp.len(), Some(exp.len())), "{} size_hint", w);
                    ensure_eq!(a.len(), exp.len(), "{} len", w);
                    ensure_eq!(a.collect::<Vec<_>>(), exp, "{}", w);
                }};
            }
            let c = it.clone();
            let mc = model.clone().into_iter();
            match op {
                Next => ensure_eq!(it.next(), model.pop_front(), "{}", w),
                Nth(i) => {
                    let exp = {
                        for _ in 0..*i {
                            model.pop_front();
                        }
                        model.pop_front()
                    };
                    ensure_eq!(it.nth(*i as usize), exp, "{}", w)
                }
                Len => ensure_eq!(it.len(), model.len(), "{}", w),
                SizeHint => ensure_eq!(it.size_hint(), (model.len(), Some(model.len())), "{}", w),
                Clone => {
                    if its.len() < 6 {
                        let c = its[k].clone();
                        its.push(c);
                        o.class("cloned");
                        o.class_if(its[k].1.len() != m.args.len() && !its[k].1.is_empty(), "cloned midway");
                    }
                }
                Take(i) => adapter!(c.take(*i as usize), mc.take(*i as usize)),
                Skip(i) => adapter!(c.skip(*i as usize), mc.skip(*i as usize)),
                Enumerate => adapter!(c.enumerate(), mc.enumerate()),
                Peekable => {
                    let mut pk = c.peekable();
                    ensure_eq!(pk.peek().copied(), model.front().copied(), "{}", w);
                    adapter!(pk, mc)
                }
                StepBy(i) => adapter!(c.step_by(*i as usize), mc.step_by(*i as usize)),
                Chain => {
                    let a: Vec<_> = c.clone().chain(c.clone()).collect();
                    let h = c.clone().chain(c).size_hint();
                    let b: Vec<_> = mc.clone().chain(mc).collect();
                    ensure_eq!(h, (b.len(), Some(b.len())), "{} size_hint", w);
                    ensure_eq!(a, b, "{}", w);
                }
                Zip(i) => adapter!(c.zip(0..*i), mc.zip(0..*i)),
                Collect => ensure_eq!(c.collect::<Vec<_>>(), mc.collect::<Vec<_>>(), "{}", w),
                Count => ensure_eq!(c.count(), mc.count(), "{}", w),
                Last => ensure_eq!(c.last(), mc.last(), "{}", w),
                Fold => ensure_eq!(
                    c.fold(0u64, |h, a| a.iter().fold(h.wrapping_mul(31) + 7, |h, b| h.wrapping_mul(257) + *b as u64)),
                    mc.fold(0u64, |h, a| a.iter().fold(h.wrapping_mul(31) + 7, |h, b| h.wrapping_mul(257) + *b as u64)),
                    "{}",
                    w
                ),
                ByRefTake(i) => {
                    let a: Vec<_> = it.by_ref().take(*i as usize).collect();
                    let n = (*i as usize).min(model.len());
                    let b: Vec<_> = model.drain(..n).collect();
                    ensure_eq!(a, b, "{}", w);
                }
                Fuse => {
                    let mut fz = c;
                    for e in mc {
                        ensure_eq!(fz.next(), Some(e), "{}", w);
                    }
                    for _ in 0..3 {
                        ensure_eq!(fz.next(), None, "{} after the end", w);
                        ensure_eq!(fz.len(), 0, "{} len after the end", w);
                        ensure_eq!(fz.size_hint(), (0, Some(0)), "{} size_hint after the end", w);
                    }
                }
                Position(x) => {
                    let mut c = c;
                    let mut mc = mc;
                    ensure_eq!(c.position(|a| a.first() == Some(x)), mc.position(|a| a.first() == Some(x)), "{}", w)
                }
            }
        }
        o.class_if(its.iter().any(|i| i.1.is_empty()), "ran to the end");
        o.nontrivial_if(m.args.len() >= 2 && ops.len() >= 3);
        for (k, (it, model)) in its.into_iter().enumerate() {
            ensure_eq!(it.len(), model.len(), "final len of iterator {}", k);
            ensure_eq!(it.collect::<Vec<_>>(), model.into_iter().collect::<Vec<_>>(), "rest of iterator {}", k);
        }
        Ok(())
    };
    s.sub(
        "scripts",
        (240_000, 8_000_000),
        "at least 2 arguments and 3 operations",
        (
            (msg_type(), args(12)).prop_map(|(ty, args)| Msg { ty, args }),
            one_of![Just(vec![]), wire_soup(0..6)].prop_map(B),
            vec((any::<u8>(), op), 0..16),
        ),
        f,
    );
}

// -- C06 ---------------------------------------------------------------------------------------------------

fn check_render(m: &Msg) -> Result<String, String> {
    let wire = m.wire();
    let (p, _) = Message::parse(&wire).map_err(|e| e.to_string())?;
    let text = p.to_string();
    let args: Vec<&[u8]> = m.args.iter().map(|a| &a.0[..]).collect();
    ensure_eq!(text, ref_render(&m.ty, &args), "rendering");
    let (ty, back) = ref_unrender(&text).map_err(|e| format!("rendering {:?} cannot be read back: {}", text, e))?;
    ensure_eq!(ty, m.ty, "recovered type");
    ensure_eq!(back.into_iter().map(B).collect::<Vec<_>>(), m.args, "recovered arguments");
    Ok(text)
}

pub fn c06(s: &mut Suite) {
    s.each("all_bytes", "every single byte, alone and between letters and doubled, as an argument", 0..=255u8, |&b, o| {
        o.nontrivial = true;
        check_render(&Msg::new("a1.b", &[&[b], &[b'x', b, b'y'], &[b, b], &[b]]))?;
        Ok(())
    });
    let render = |m: &Msg, o: &mut Obs| {
        let t = check_render(m)?;
        o.nontrivial_if(t.contains('"'));
        o.class_if(t.contains("\\x"), "hex escape");
        o.class_if(m.args.iter().any(|a| a.is_empty()), "empty argument");
        o.class_if(m.args.iter().any(|a| a.contains(&b'"') || a.contains(&b'\\')), "quote or backslash");
        Ok(())
    };
    s.sub("render", (240_000, 8_000_000), "at least one argument that needs quotes", msg(10), render);
    s.raw(
        "render_bytes",
        "at least one argument that needs quotes; arguments end where the byte ff stands",
        msg(10).prop_map(|m| m.args.iter().map(|a| &a.0[..]).collect::<Vec<_>>().join(&0xff)).boxed(),
        |d| Msg { ty: "core1.set".into(), args: d.split(|&b| b == 0xff).map(|a| B(a.to_vec())).collect() },
        render,
    );
    s.sub(
        "long",
        (8_000, 200_000),
        "an argument of more than 300 bytes, or more than 40 arguments",
        (
            msg_type(),
            vec(
                one_of![
                    2 => (any::<u8>(), 200usize..3000).prop_map(|(b, n)| vec![b; n]),
                    2 => vec(any::<u8>(), 100..1500),
                    1 => "[a-z0-9._-]{200,1500}".prop_map(String::into_bytes),
                    3 => vec(any::<u8>(), 0..4),
                ]
                .prop_map(B),
                1..6,
            ),
            one_of![5 => Just(1usize), 1 => 10usize..80],
        ),
        |(ty, args, times), o| {
            let m = Msg { ty: ty.clone(), args: args.iter().cycle().take(args.len() * times).cloned().collect() };
            check_render(&m)?;
            o.nontrivial_if(m.args.len() > 40 || m.args.iter().any(|a| a.len() > 300));
            o.class_if(m.wire().len() > 1024, "over 1024 bytes");
            Ok(())
        },
    );
    s.sub(
        "options",
        (60_000, 2_000_000),
        "a width larger than 1 and an argument",
        (msg(6), 0usize..40, 0usize..9),
        |(m, width, style), o| {
            let wire = m.wire();
            let (p, _) = Message::parse(&wire).map_err(|e| e.to_string())?;
            let plain = p.to_string();
            let w = *width;
            let (fill, text) = match style {
                0 => (' ', format!("{:w$}", p)),
                1 => (' ', format!("{:>w$}", p)),
                2 => (' ', format!("{:<w$}", p)),
                3 => ('~', format!("{:~^w$}", p)),
                4 => ('0', format!("{:0w$}", p)),
                5 => (' ', format!("{:+w$}", p)),
                6 => (' ', format!("{:#w$}", p)),
                7 => ('x', format!("{:x>#w$}", p)),
                _ => ('"', format!("{:\"<w$}", p)),
            };
            // a width may at most pad the whole
            let ok = text.match_indices(&plain[..]).any(|(at, _)| {
                let around = text[..at].chars().chain(text[at + plain.len()..].chars());
                around.clone().all(|c| c == fill) && (around.count() == 0 || text.chars().count() == w)
            });
            ensure!(ok, "rendered with width {} (style {}) as {:?}, without as {:?}", w, style, text, plain);
            o.nontrivial_if(w > 1 && !m.args.is_empty());
            o.class_if(w > plain.len(), "width exceeds text");
            Ok(())
        },
    );
    s.sub(
        "full_sink",
        (60_000, 2_000_000),
        "a sink that is too small for the text",
        (msg(6), 0usize..200, 0usize..4),
        |(m, space, near), o| {
            struct Sink(String, usize);
            impl std::fmt::Write for Sink {
                fn write_str(&mut self, s: &str) -> std::fmt::Result {
                    if self.0.len() + s.len() > self.1 {
                        return Err(std::fmt::Error);
                    }
                    self.0.push_str(s);
                    Ok(())
                }
            }
            let wire = m.wire();
            let (p, _) = Message::parse(&wire).map_err(|e| e.to_string())?;
            let plain = p.to_string();
            let space = if *near > 0 { (plain.len() + 1).saturating_sub(*near) } else { *space };
            let mut sink = Sink(String::new(), space);
            let r = std::fmt::write(&mut sink, format_args!("{}", p));
            ensure_eq!(r.is_ok(), space >= plain.len(), "outcome of rendering {:?} into {} bytes", plain, space);
            ensure!(plain.starts_with(&sink.0), "wrote {:?} of {:?}", sink.0, plain);
            if r.is_ok() {
                ensure_eq!(sink.0, plain, "rendering into a bounded sink");
            }
            o.nontrivial_if(r.is_err());
            Ok(())
        },
    );
    // arguments made of the characters that are easy to confuse
    let tricky = vec(select(b"\"\\ ()x0a\n'n\xff\x7f\x1f~".to_vec()), 0..6).prop_map(B);
    s.sub(
        "injective",
        (160_000, 6_000_000),
        "pairs of different messages",
        (msg_type(), vec(tricky.clone(), 0..4), vec(tricky, 0..4), any::<bool>()),
        |(ty, a, b, same), o| {
            let (x, mut y) = (Msg { ty: ty.clone(), args: a.clone() }, Msg { ty: ty.clone(), args: b.clone() });
            if *same {
                // a close relative: re-split the words at another place
                y.args = x.args.clone();
                if let Some(mut l) = y.args.pop() {
                    let k = l.len() / 2;
                    let r = l.0.split_off(k);
                    y.args.push(l);
                    y.args.push(B(r));
                }
            }
            let (tx, ty) = (check_render(&x)?, check_render(&y)?);
            o.nontrivial_if(x != y);
            ensure!((tx == ty) == (x == y), "{:?} and {:?} render as {:?} and {:?}", x, y, tx, ty);
            Ok(())
        },
    );
}

// -- C30 ---------------------------------------------------------------------------------------------------

/// Memory whose ends coincide with inaccessible pages.
struct Fenced {
    base: *mut u8,
    total: usize,
    page: usize,
}
impl Fenced {
    fn new(data_pages: usize) -> Fenced {
        let page = 4096;
        let total = (data_pages + 2) * page;
        unsafe {
            let base = libc::mmap(
                std::ptr::null_mut(),
                total,
                libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(base != libc::MAP_FAILED);
            assert_eq!(libc::mprotect(base.add(page), data_pages * page, libc::PROT_READ | libc::PROT_WRITE), 0);
            Fenced { base: base as *mut u8, total, page }
        }
    }
    fn data(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.base.add(self.page), self.total - 2 * self.page) }
    }
    /// `len` bytes that touch the end (or the beginning) of the accessible memory
    fn slot(&mut self, len: usize, at_end: bool) -> &mut [u8] {
        let d = self.data();
        let n = d.len();
        if at_end {
            &mut d[n - len..]
        } else {
            &mut d[..len]
        }
    }
}
impl Drop for Fenced {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.base as *mut libc::c_void, self.total);
        }
    }
}

thread_local! { static FENCED: std::cell::RefCell<Fenced> = std::cell::RefCell::new(Fenced::new(4)); }

/// Where does `part` stand in `whole`? None if outside.
fn offset_in(part: &[u8], whole: &[u8]) -> Option<usize> {
    let (a, b) = (part.as_ptr() as usize, whole.as_ptr() as usize);
    if a >= b && a + part.len() <= b + whole.len() {
        Some(a - b)
    } else {
        None
    }
}

macro_rules! ensure_at {
    ($part:expr, $whole:expr, $off:expr, $($t:tt)*) => {
        ensure_eq!(offset_in($part, $whole), Some($off), "offset in the input of {}", format!($($t)*))
    };
}

pub fn c30(s: &mut Suite) {
    s.sub(
        "parse_ranges",
        (240_000, 8_000_000),
        "inputs of at least 4 bytes that begin with the message opener, placed against an inaccessible page",
        (parser_input(), any::<bool>()),
        |(inp, at_end), o| {
            if inp.len() > 16384 {
                return Ok(());
            }
            FENCED.with(|f| {
                let mut f = f.borrow_mut();
                f.data().fill(0x11);
                let slot = f.slot(inp.len(), *at_end);
                slot.copy_from_slice(inp);
                let slot: &[u8] = slot;
                o.nontrivial_if(inp.len() >= 4 && inp[0] == b'{');
                match (Message::parse(slot), ref_parse(inp)) {
                    (Ok((m, len)), Verdict::Msg { items, len: wl }) => {
                        o.class("message");
                        ensure!(len <= slot.len() && len == wl, "reported length {} of {}", len, wl);
                        for round in 0..2 {
                            let mut it = m.arguments();
                            let n = it.len();
                            ensure_eq!(n, items.len() - 1, "number of arguments");
                            for (k, &(a, b)) in items[1..].iter().enumerate() {
                                let arg = it.next().ok_or("argument missing")?;
                                ensure_eq!(arg.len(), b - a, "length of argument {} (round {})", k, round);
                                ensure_at!(arg, slot, a, "argument {}", k);
                            }
                        }
                        let t = m.parsed_type();
                        if let MessageType::Scoped(ref si) = t {
                            o.class("scoped type");
                            let (a, b) = items[0];
                            ensure_at!(si.as_str().as_bytes(), slot, a, "the message type");
                            ensure_eq!(si.as_str().len(), b - a, "length of the message type");
                            let dot = inp[a..b].iter().position(|&c| c == b'.').unwrap();
                            let module = si.module();
                            ensure_at!(module.as_str().as_bytes(), slot, a, "the module");
                            ensure_eq!(module.as_str().len(), dot, "length of the module");
                            let name = module.name();
                            ensure_at!(name.as_str().as_bytes(), slot, a, "the module name");
                            let member = si.member();
                            ensure_at!(member.as_str().as_bytes(), slot, a + dot + 1, "the member");
                            ensure_eq!(member.as_str().len(), b - a - dot - 1, "length of the member");
                        }
                    }
                    (Err(e), Verdict::Err { .. }) => {
                        o.class("error");
                        ensure_at!(e.buffer, slot, 0, "the buffer of the error");
                        ensure_eq!(e.buffer.len(), slot.len(), "length of the error's buffer");
                        ensure!(e.offset <= slot.len(), "error offset {} beyond the input of {}", e.offset, slot.len());
                    }
                    (r, v) => return Err(format!("got {:?}, expected {:?}", r.map(|x| x.1).map_err(|e| e.to_string()), v)),
                }
                ensure_eq!(slot, &inp.0[..], "input after parsing");
                Ok(())
            })
        },
    );
    s.sub(
        "decode_ranges",
        (240_000, 8_000_000),
        "values accepted by at least one borrowing type, placed against an inaccessible page",
        (argish(), any::<bool>()),
        |(inp, at_end), o| {
            FENCED.with(|f| {
                let mut f = f.borrow_mut();
                let slot = f.slot(inp.len(), *at_end);
                slot.copy_from_slice(inp);
                let slot: &[u8] = slot;
                let dot = inp.iter().position(|&c| c == b'.');
                macro_rules! whole {
                    ($v:expr, $name:expr) => {
                        let v: &[u8] = $v;
                        ensure_at!(v, slot, 0, "{}", $name);
                        ensure_eq!(v.len(), slot.len(), "length of {}", $name);
                        o.class($name);
                    };
                }
                if let Some(v) = <&[u8]>::decode_argument(slot) {
                    whole!(v, "bytes");
                }
                if let Some(v) = <&str>::decode_argument(slot) {
                    whole!(v.as_bytes(), "str");
                    o.nontrivial_if(slot.len() > 1);
                }
                if let Some(v) = <&std::path::Path>::decode_argument(slot) {
                    use std::os::unix::ffi::OsStrExt;
                    whole!(v.as_os_str().as_bytes(), "path");
                }
                if let Some(Some(v)) = <Option<&[u8]>>::decode_argument(slot) {
                    whole!(v, "optional bytes");
                }
                if let Some(v) = ClientID::decode_argument(slot) {
                    whole!(v.as_str().as_bytes(), "client ID");
                }
                if let Some(v) = Identifier::decode_argument(slot) {
                    whole!(v.as_str().as_bytes(), "identifier");
                }
                if let Some(v) = ModuleIdentifier::decode_argument(slot) {
                    whole!(v.as_str().as_bytes(), "module identifier");
                    ensure_at!(v.name().as_str().as_bytes(), slot, 0, "module name");
                }
                if let Some(v) = ModuleVersion::decode_argument(slot) {
                    let m = v.module();
                    ensure_at!(m.as_str().as_bytes(), slot, 0, "module of version");
                    ensure_eq!(m.as_str().len(), dot.unwrap_or(0), "length of module of version");
                    o.class("module version");
                }
                if let Some(v) = ScopedIdentifier::decode_argument(slot) {
                    whole!(v.as_str().as_bytes(), "scoped identifier");
                    let m = v.module();
                    ensure_at!(m.as_str().as_bytes(), slot, 0, "module of scoped identifier");
                    let d = dot.unwrap_or(0);
                    ensure_eq!(m.as_str().len(), d, "length of module of scoped identifier");
                    ensure_at!(v.member().as_str().as_bytes(), slot, d + 1, "member");
                    ensure_eq!(v.member().as_str().len(), slot.len() - d - 1, "length of member");
                }
                if let Some(MessageType::Scoped(v)) = MessageType::decode_argument(slot) {
                    whole!(v.as_str().as_bytes(), "message type");
                }
                ensure_eq!(slot, &inp.0[..], "input after decoding");
                Ok(())
            })
        },
    );
    s.sub(
        "encode_fills",
        (160_000, 5_000_000),
        "every value, encoded into a buffer of exactly the announced size between inaccessible pages, twice over different old contents",
        crate::checks::values::val(),
        |v, o| {
            o.nontrivial = true;
            FENCED.with(|f| {
                let mut f = f.borrow_mut();
                let mut outs = vec![];
                for (fill, at_end) in [(0x00u8, true), (0xffu8, true), (0x5a, false)] {
                    f.data().fill(fill);
                    let size = v.with_arg(|a| a.get_size());
                    let slot = f.slot(size, at_end);
                    v.with_arg(|a| a.encode(slot));
                    let out = slot.to_vec();
                    let d = f.data();
                    let rest = if at_end { &d[..d.len() - size] } else { &d[size..] };
                    ensure!(rest.iter().all(|&b| b == fill), "bytes outside the buffer were written");
                    outs.push(B(out));
                }
                ensure_eq!(outs[1], outs[0], "encoding depends on the old contents, so not every byte was filled");
                ensure_eq!(outs[2], outs[0], "encoding depends on the old contents, so not every byte was filled");
                Ok(())
            })
        },
    );
    s.sub(
        "format_ranges",
        (80_000, 2_000_000),
        "messages formatted into buffers at the edge of accessible memory",
        (one_of![msg(8), msg_near(1024)], 0usize..40, any::<bool>()),
        |(m, short, at_end), o| {
            let size = m.wire().len().saturating_sub(*short).min(8000);
            o.nontrivial_if(size > 0);
            FENCED.with(|f| {
                let mut f = f.borrow_mut();
                f.data().fill(0x77);
                let slot = f.slot(size, *at_end);
                let r = fmt_msg(m, slot);
                let content = slot.to_vec();
                if let Ok(n) = r {
                    ensure!(n <= size, "length {} reported for a buffer of {}", n, size);
                    ensure_eq!(B(content[..n].to_vec()), B(m.wire()), "wire form");
                }
                let d = f.data();
                let rest = if *at_end { &d[..d.len() - size] } else { &d[size..] };
                ensure!(rest.iter().all(|&b| b == 0x77), "bytes outside the buffer were written");
                Ok(())
            })
        },
    );
}
