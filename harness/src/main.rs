//! Replays recorded inputs against the real code: one harness run per line.
use std::io::{BufRead, Write};
use vh::sym::{Assume, Failed, In, TAPE};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let line = match line {
            Ok(l) => l,
            Err(_) => break,
        };
        let mut it = line.split_whitespace();
        let name = it.next().unwrap_or("");
        let mut v = vec![];
        for t in it {
            v.push(match t.as_bytes()[0] {
                b'i' => In::I(t[1..].parse().unwrap()),
                _ => In::F(f32::from_bits(u32::from_str_radix(&t[1..], 16).unwrap())),
            });
        }
        TAPE.with(|t| *t.borrow_mut() = (v, 0));
        let f = vh::all().into_iter().find(|x| x.0 == name);
        let msg = match f {
            None => "OK no such harness".to_string(),
            Some(f) => match std::panic::catch_unwind(|| (f.1)()) {
                Ok(()) => "OK".to_string(),
                Err(e) => {
                    if e.downcast_ref::<Assume>().is_some() {
                        "OK assumption not met".to_string()
                    } else if let Some(x) = e.downcast_ref::<Failed>() {
                        format!("FAIL check {}", x.0)
                    } else if let Some(x) = e.downcast_ref::<String>() {
                        format!("FAIL panic: {}", x.replace('\n', " "))
                    } else if let Some(x) = e.downcast_ref::<&str>() {
                        format!("FAIL panic: {}", x.replace('\n', " "))
                    } else {
                        "FAIL panic".to_string()
                    }
                }
            },
        };
        let _ = writeln!(out, "\n@@{}", msg);
        let _ = out.flush();
    }
}
