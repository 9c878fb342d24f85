//! Conformance harness: runs the real json-ld code on the cases read from stdin (ndjson)
//! and writes one trace event per case to stdout (ndjson).  Panics of the code under test are data.
mod enc;
mod ops;
#[cfg(feature = "http")]
mod http;

use json_syntax::{Parse, Value};
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

fn main() {
    // keep panic messages of the code under test out of the way
    std::panic::set_hook(Box::new(|_| {}));
    let limit: u64 = std::env::var("HARNESS_CASE_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(20000);
    let started = Arc::new(AtomicU64::new(u64::MAX));
    let epoch = std::time::Instant::now();
    {
        let started = started.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let s = started.load(Ordering::SeqCst);
            if s != u64::MAX && epoch.elapsed().as_millis() as u64 > s + limit {
                // the driver records a hang for the case after the last complete line
                std::process::exit(77);
            }
        });
    }
    let child = std::thread::Builder::new()
        .stack_size(256 * 1024 * 1024)
        .spawn(move || {
            let stdin = std::io::stdin();
            let mut out = std::io::BufWriter::new(std::io::stdout().lock());
            for line in stdin.lock().lines() {
                let line = line.unwrap();
                if line.trim().is_empty() {
                    continue;
                }
                let (case, _) = Value::parse_str(&line).expect("malformed case");
                started.store(epoch.elapsed().as_millis() as u64, Ordering::SeqCst);
                let event = ops::run(case);
                started.store(u64::MAX, Ordering::SeqCst);
                writeln!(out, "{event}").unwrap();
                out.flush().unwrap();
            }
        })
        .unwrap();
    child.join().unwrap();
}
