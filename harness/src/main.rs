//! Executes schedules against the real code and records what it does.
//!
//! `conform SCHEDULES OUT [FIRST]` reads one schedule per line (a family letter
//! and space-separated commands) and appends one line of JSON per schedule to
//! OUT, written event by event, so that a crash or a hang of the code under test
//! leaves the prefix of the line. It judges nothing: that is TLC's part.
#![allow(unexpected_cfgs)]

use std::fs::{File, OpenOptions};
use std::io::{BufRead, BufReader, Write};
use std::sync::atomic::{AtomicU64, Ordering};

#[cfg(rtps_verif)]
mod change;
#[cfg(rtps_verif)]
mod compose;
#[cfg(rtps_verif = "history")]
mod history;
mod memory;
#[cfg(rtps_verif = "parameter")]
mod parameter;
#[cfg(rtps_verif)]
mod proxy;
#[cfg(all(rtps_verif = "stateful", rtps_verif = "stateless", rtps_verif = "locators"))]
mod readers;
#[cfg(rtps_verif)]
mod recv;
mod runs;
#[cfg(rtps_verif = "locators")]
mod registry;
#[cfg(rtps_verif)]
mod sets;
#[cfg(all(rtps_verif = "history", rtps_verif = "stateless"))]
mod system;
#[cfg(rtps_verif)]
mod values;
#[cfg(all(rtps_verif = "stateless", rtps_verif = "locators"))]
mod writer;
#[cfg(rtps_verif = "stateless")]
mod writer_attributes;

static PROGRESS: AtomicU64 = AtomicU64::new(0);
const HANG: i32 = 97;
const HANG_SECONDS: u32 = 20;

#[global_allocator]
static MEMORY: memory::Counting = memory::Counting;

/// The line of the current schedule
pub struct Out {
    file: File,
    first: bool,
}

impl Out {
    fn raw(&mut self, text: &str) {
        self.file.write_all(text.as_bytes()).expect("cannot write the trace");
    }

    /// Starts the line of a schedule: `fields` are JSON members of the trace
    pub fn start(&mut self, fields: &str) {
        self.raw(fields);
        self.raw("\"ev\":[");
        self.first = true;
    }

    /// Starts an event: what stands in the file should the code not return
    pub fn begin(&mut self, fields: &str) {
        PROGRESS.fetch_add(1, Ordering::Relaxed);
        let comma = if self.first { "" } else { "," };
        self.first = false;
        self.raw(&format!("{}{{{}", comma, fields));
    }

    pub fn end(&mut self, fields: &str) {
        self.raw(&format!("{}}}", fields));
    }

    pub fn event(&mut self, fields: &str) {
        self.begin(fields);
        self.end("");
    }
}

/// A JSON array of numbers
pub fn arr<T: std::fmt::Display>(items: impl IntoIterator<Item = T>) -> String {
    let mut s = String::from("[");
    for (i, item) in items.into_iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let _ = std::fmt::Write::write_fmt(&mut s, format_args!("{}", item));
    }
    s.push(']');
    s
}

pub fn hex(s: &str) -> Vec<u8> {
    assert!(s.len() % 2 == 0, "odd hex string");
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("bad hex"))
        .collect()
}

/// The integers in the Debug output of a value with private fields
pub fn ints<T: std::fmt::Debug>(value: &T) -> Vec<i128> {
    let text = format!("{:?}", value);
    let b = text.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c.is_ascii_alphabetic() || c == b'_' {
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
        } else if c.is_ascii_digit() || (c == b'-' && i + 1 < b.len() && b[i + 1].is_ascii_digit())
        {
            let start = i;
            i += 1;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            out.push(text[start..i].parse().expect("number"));
        } else {
            i += 1;
        }
    }
    out
}

/// Runs code under test; None if it panicked
pub fn guarded<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}

/// Formats every log record, as a logger would, into nothing
struct Discarding;

struct Nowhere;

impl std::fmt::Write for Nowhere {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}

impl log::Log for Discarding {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, record: &log::Record) {
        let _ = std::fmt::write(&mut Nowhere, *record.args());
    }
    fn flush(&self) {}
}

static LOGGER: Discarding = Discarding;

fn main() {
    let _ = log::set_logger(&LOGGER);
    log::set_max_level(log::LevelFilter::Trace);
    let args: Vec<String> = std::env::args().collect();
    let schedules = BufReader::new(File::open(&args[1]).expect("schedules"));
    let file = OpenOptions::new().create(true).append(true).open(&args[2]).expect("output");
    let first: usize = args.get(3).map_or(0, |s| s.parse().expect("first"));
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(|| {
        let mut seen = PROGRESS.load(Ordering::Relaxed);
        let mut quiet = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let now = PROGRESS.load(Ordering::Relaxed);
            quiet = if now == seen { quiet + 1 } else { 0 };
            seen = now;
            if quiet >= HANG_SECONDS {
                std::process::exit(HANG);
            }
        }
    });
    let mut out = Out { file, first: true };
    for (i, line) in schedules.lines().enumerate().skip(first) {
        let line = line.expect("schedule");
        let mut words = line.split_whitespace();
        let family = words.next().expect("family");
        let words: Vec<&str> = words.collect();
        out.raw(&format!("{{\"id\":{},", i + 1));
        match family {
            #[cfg(rtps_verif)]
            "R" => recv::run(&words, &mut out),
            #[cfg(rtps_verif)]
            "M" => compose::run(&words, &mut out),
            #[cfg(rtps_verif)]
            "N" => sets::run(&words, &mut out),
            #[cfg(rtps_verif)]
            "V" => values::run(&words, &mut out),
            #[cfg(rtps_verif)]
            "X" => proxy::run(&words, &mut out),
            #[cfg(rtps_verif = "parameter")]
            "P" => parameter::run(&words, &mut out),
            #[cfg(rtps_verif = "history")]
            "H" => history::run(&words, &mut out),
            #[cfg(all(rtps_verif = "stateless", rtps_verif = "locators"))]
            "W" => writer::run(&words, &mut out),
            #[cfg(all(rtps_verif = "stateful", rtps_verif = "stateless", rtps_verif = "locators"))]
            "S" => readers::run(&words, &mut out),
            #[cfg(all(rtps_verif = "history", rtps_verif = "stateless"))]
            "Y" => system::run(&words, &mut out),
            _ => panic!("unknown family {}", family),
        }
        out.raw("]}\n");
    }
}
