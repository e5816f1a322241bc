//! Answers probes (see probe.rs) with a vt6 crate built without its standard-library feature.
mod probe;
use std::io::{Read, Write};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
    let mut n = [0u8; 4];
    while i.read_exact(&mut n).is_ok() {
        let mut req = vec![0; u32::from_le_bytes(n) as usize];
        i.read_exact(&mut req).unwrap();
        let answer = probe::answer(&req);
        o.write_all(&(answer.len() as u32).to_le_bytes()).unwrap();
        o.write_all(answer.as_bytes()).unwrap();
        o.flush().unwrap();
    }
}
