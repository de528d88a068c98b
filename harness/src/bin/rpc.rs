//! Line protocol: `<root name> <hex arguments>` -> `ok <hex>` | `panic <message>` | `nofn`.
use std::io::{BufRead, Write};
fn main() {
    let t: std::collections::HashMap<String, fn(&mut mirv_harness::io::Rd) -> Vec<u8>> =
        mirv_harness::all().into_iter().map(|(n, f)| (n.rsplitn(3, "::").take(2).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("::"), f)).collect();
    std::panic::set_hook(Box::new(|_| {}));
    // answers go to the descriptor named by the first argument: the library itself may print
    let fd: i32 = std::env::args().nth(1).unwrap().parse().unwrap();
    let out: std::fs::File = unsafe { std::os::unix::io::FromRawFd::from_raw_fd(fd) };
    let mut out = std::io::BufWriter::new(out);
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        if l == "flush" {
            out.flush().unwrap();
            continue;
        }
        let (n, h) = l.split_once(' ').unwrap_or((&l, ""));
        let bytes: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
        match t.get(n) {
            None => writeln!(out, "nofn").unwrap(),
            Some(f) => match std::panic::catch_unwind(|| f(&mut mirv_harness::io::Rd(&bytes))) {
                Ok(v) => {
                    let mut s = String::with_capacity(2 * v.len() + 4);
                    for b in v {
                        s.push_str(&format!("{:02x}", b));
                    }
                    writeln!(out, "ok {}", s).unwrap()
                }
                Err(e) => {
                    let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    writeln!(out, "panic {}", m.replace('\n', " ")).unwrap()
                }
            },
        }
    }
}
