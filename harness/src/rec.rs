//! Recording of traces: one JSON line per call of the library.
//!
//! The first half of a line (operation and arguments) is written before the call and the second
//! half (outcome) after it, so a call that kills the process leaves an unfinished line behind.  A
//! call that does not return within the limit is recorded with outcome `timeout`.

use std::cell::Cell;
use std::fs::File;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

thread_local! {
    static LAST_PANIC: Cell<String> = Cell::new(String::new());
}

pub struct Rec {
    file: Arc<Mutex<File>>,
    /// milliseconds since `t0` at which the running call started, plus one; 0 when idle
    started: Arc<AtomicU64>,
    t0: Instant,
    pub events: usize,
    limit: usize,
}

fn classify(msg: &str) -> &'static str {
    if msg.contains("attempt to") && msg.contains("overflow") {
        "overflow"
    } else if msg.contains("divide by zero")
        || msg.contains("denominator cannot be zero")
        || msg.contains("divisor of zero")
    {
        "zero"
    } else {
        "other"
    }
}

impl Rec {
    pub fn create(path: &str, call_limit_s: u64, max_events: usize) -> Rec {
        let started = Arc::new(AtomicU64::new(0));
        let running = started.clone();
        std::panic::set_hook(Box::new(move |info| {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                String::new()
            };
            if running.load(Ordering::SeqCst) == 0 {
                // not in a call of the library: a mistake of the driver
                eprintln!("driver: {}", info);
            }
            LAST_PANIC.with(|c| c.set(msg));
        }));
        let file = Arc::new(Mutex::new(File::create(path).expect("trace file")));
        let t0 = Instant::now();
        {
            let (file, started) = (file.clone(), started.clone());
            std::thread::spawn(move || loop {
                std::thread::sleep(Duration::from_millis(100));
                let s = started.load(Ordering::SeqCst);
                if s != 0 && t0.elapsed().as_millis() as u64 + 1 > s + call_limit_s * 1000 {
                    let mut f = file.lock().unwrap();
                    if started.load(Ordering::SeqCst) == s {
                        f.write_all(b",\"out\":{\"k\":\"timeout\"}}\n").unwrap();
                        f.flush().unwrap();
                        std::process::exit(0);
                    }
                }
            });
        }
        Rec { file, started, t0, events: 0, limit: max_events }
    }

    /// no more events wanted
    pub fn full(&self) -> bool {
        self.events >= self.limit
    }

    /// marks the start of an independent history
    pub fn begin(&mut self) {
        self.file.lock().unwrap().write_all(b"{\"op\":\"begin\"}\n").unwrap();
    }

    /// Records a call.  `f` performs it and returns the JSON of the observed result, or `None` if
    /// the result contains a number that is not finite.  Returns whether a value came back.
    pub fn ev(&mut self, head: &str, f: impl FnOnce() -> Option<String>) -> bool {
        self.file.lock().unwrap().write_all(format!("{{{}", head).as_bytes()).unwrap();
        self.started.store(self.t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
        let r = catch_unwind(AssertUnwindSafe(f));
        let mut file = self.file.lock().unwrap();
        self.started.store(0, Ordering::SeqCst);
        let (out, ok) = match r {
            Ok(Some(v)) => (format!("{{\"k\":\"v\",\"v\":{}}}", v), true),
            Ok(None) => ("{\"k\":\"nonfinite\"}".to_string(), false),
            Err(_) => {
                let msg = LAST_PANIC.with(|c| c.take());
                (format!("{{\"k\":\"panic\",\"m\":\"{}\"}}", classify(&msg)), false)
            }
        };
        file.write_all(format!(",\"out\":{}}}\n", out).as_bytes()).unwrap();
        self.events += 1;
        ok
    }
}

/// JSON list
pub fn list<T>(it: impl IntoIterator<Item = T>, f: impl Fn(T) -> String) -> String {
    let mut s = String::from("[");
    for (i, x) in it.into_iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&f(x));
    }
    s.push(']');
    s
}

pub fn olist<T>(it: impl IntoIterator<Item = T>, f: impl Fn(T) -> Option<String>) -> Option<String> {
    let mut s = String::from("[");
    for (i, x) in it.into_iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&f(x)?);
    }
    s.push(']');
    Some(s)
}

pub fn nums<T: std::fmt::Display>(it: impl IntoIterator<Item = T>) -> String {
    list(it, |x| x.to_string())
}

pub fn b(x: bool) -> u8 {
    x as u8
}

/// JSON string of a rendered text; superscript digits are written ^0..^9
pub fn text(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '⁰' => o.push_str("^0"),
            '¹' => o.push_str("^1"),
            '²' => o.push_str("^2"),
            '³' => o.push_str("^3"),
            '⁴' => o.push_str("^4"),
            '⁵' => o.push_str("^5"),
            '⁶' => o.push_str("^6"),
            '⁷' => o.push_str("^7"),
            '⁸' => o.push_str("^8"),
            '⁹' => o.push_str("^9"),
            '\n' => o.push('|'),
            '"' => o.push_str("''"),
            '\\' => o.push('/'),
            c if c.is_ascii() && !c.is_ascii_control() => o.push(c),
            c => o.push_str(&format!("<U+{:04X}>", c as u32)),
        }
    }
    o.push('"');
    o
}
