//! Reads scenarios from a file, drives huff_coding through them and writes
//! one JSON line per scenario, holding every call made and the full projected
//! result of it. It judges nothing: the TLA+ trace specifications do.
//!
//! usage: recorder SCENARIOS OUT [SKIP]
//!
//! A scenario is a line `case ID TYPE` followed by one line per call, ended by
//! `end`. Each call that yields an object stores it in the next register
//! (numbered from 1); calls name registers by number. Letters are written as
//! the hex of their bytes (big-endian for integers, UTF-8 for text, `-` if empty).
//! Lines after a line `thread` are the calls of a thread of its own.
mod big;
mod branches;
mod letters;
mod session;
mod weights;

use std::io::{BufWriter, Write};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&args[1]).expect("scenarios");
    let skip: usize = args.get(3).map(|s| s.parse().unwrap()).unwrap_or(0);
    let out = std::fs::OpenOptions::new().create(true).append(true).open(&args[2]).expect("out");
    let mut out = BufWriter::new(out);
    std::panic::set_hook(Box::new(|_| {}));

    // so many scenarios at the same time
    let together: usize = std::env::var("REC_TOGETHER").map(|s| s.parse().unwrap()).unwrap_or(1);
    let mut cases: Vec<(Vec<&str>, Vec<Vec<&str>>)> = Vec::new();
    for line in text.lines() {
        let words: Vec<&str> = line.split(' ').collect();
        match words[0] {
            "case" => cases.push((words, Vec::new())),
            "end" => (),
            _ => cases.last_mut().expect("case").1.push(words),
        }
    }
    for some in cases[skip.min(cases.len())..].chunks(together) {
        let done = if let [one] = some { vec![run_case(one.0[1], one.0[2], &one.1)] } else {
            let gate = std::sync::Barrier::new(some.len());
            std::thread::scope(|s| {
                let gate = &gate;
                let running: Vec<_> = some.iter().map(|one| s.spawn(move || { gate.wait(); run_case(one.0[1], one.0[2], &one.1) })).collect();
                running.into_iter().map(|t| t.join().expect("scenario")).collect()
            })
        };
        for line in done {
            out.write_all(line.as_bytes()).unwrap();
            out.write_all(b"\n").unwrap();
        }
        // whatever happens in the next scenario, this one is recorded
        out.flush().unwrap();
    }
}

fn run_case(id: &str, ty: &str, body: &[Vec<&str>]) -> String {
    macro_rules! by_type {
        (bytes: {$($name:literal => $bty:ty),*}, plain: {$($pname:literal => $pty:ty),*}) => {
            match ty {
                $($name => { let (sz, ev) = (std::mem::size_of::<$bty>(), session::run_bytes::<$bty>(body)); (sz, ev) })*
                $($pname => (0, session::run_plain::<$pty>(body)),)*
                "weights" => (1, weights::run(body)),
                _ => panic!("unknown type {}", ty),
            }
        };
    }
    let (sz, events) = by_type!(
        bytes: {
            "u8" => u8, "u16" => u16, "u32" => u32, "u64" => u64, "u128" => u128, "usize" => usize,
            "i8" => i8, "i16" => i16, "i32" => i32, "i64" => i64, "i128" => i128, "isize" => isize,
            "fal" => letters::Fallible, "unit" => letters::Unit, "tri" => letters::Tri
        },
        plain: {"char" => char, "str" => &'static str, "string" => String}
    );
    format!("{{\"id\":\"{}\",\"ty\":\"{}\",\"sz\":{},\"ev\":[{}]}}", id, ty, sz, events.join(","))
}

pub fn json_bytes(bytes: &[u8]) -> String {
    let mut s = String::with_capacity(bytes.len() * 4 + 2);
    s.push('[');
    for (i, b) in bytes.iter().enumerate() {
        if i > 0 { s.push(',') }
        s.push_str(&b.to_string());
    }
    s.push(']');
    s
}

pub fn json_list<I: IntoIterator<Item = String>>(items: I) -> String {
    let items: Vec<String> = items.into_iter().collect();
    format!("[{}]", items.join(","))
}

/// A weight as six base-32768 digits, least significant first
pub fn json_weight(w: usize) -> String {
    let mut w = w as u128;
    let mut v = Vec::new();
    for _ in 0..6 { v.push((w % 32768).to_string()); w /= 32768; }
    format!("[{}]", v.join(","))
}

pub fn unhex(s: &str) -> Vec<u8> {
    if s == "-" { return Vec::new() }
    let s = s.as_bytes();
    let d = |c: u8| (c as char).to_digit(16).unwrap() as u8;
    s.chunks(2).map(|p| d(p[0]) * 16 + d(p[1])).collect()
}

/// Whose letters can be handed to and shared between threads, can be so themselves
#[cfg(feature = "share")]
#[allow(dead_code)]
fn shared<L: huff_coding::prelude::HuffLetter + Send + Sync>() {
    use huff_coding::prelude::*;
    fn check<T: Send + Sync>() {}
    check::<HuffLeaf<L>>();
    check::<HuffBranch<L>>();
    check::<HuffTree<L>>();
    check::<CompressData<L>>();
    check::<ByteWeights>();
    check::<huff_coding::comp::errors::CompressError<L>>();
}
