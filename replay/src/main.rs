//! The harnesses compiled natively. Reads runs on stdin, one per line:
//! `entry|k=v,k=v|w:hex,w:hex`, executes the harness with these inputs and prints
//! `ok <events>`; a failed check prints `fail <id>` and exits 1.
use std::cell::RefCell;
use std::io::{BufRead, Write};

#[path = "../../harness/src/sx.rs"]
#[macro_use]
mod sx;
#[path = "../../harness/src/long.rs"]
mod long;
#[path = "../../harness/src/model.rs"]
mod model;
#[path = "../../harness/src/notes.rs"]
mod notes;
#[path = "../../harness/src/zoo.rs"]
mod zoo;
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../harness/src/mods.rs"));

#[derive(Default)]
struct Run {
    inputs: Vec<u64>,
    next: usize,
    params: Vec<(u32, u64)>,
    events: Vec<u64>,
}
thread_local!(static RUN: RefCell<Run> = RefCell::new(Run::default()));

fn input() -> u64 {
    RUN.with(|r| {
        let mut r = r.borrow_mut();
        let x = r.inputs.get(r.next).copied().unwrap_or(0);
        r.next += 1;
        x
    })
}
fn die(s: &str) -> ! {
    println!("{s}");
    let _ = std::io::stdout().flush();
    std::process::exit(1)
}
fn event(x: u64) {
    RUN.with(|r| r.borrow_mut().events.push(x))
}
#[no_mangle]
extern "C" fn symx_u8() -> u8 {
    input() as u8
}
#[no_mangle]
extern "C" fn symx_u16() -> u16 {
    input() as u16
}
#[no_mangle]
extern "C" fn symx_u32() -> u32 {
    input() as u32
}
#[no_mangle]
extern "C" fn symx_u64() -> u64 {
    input()
}
#[no_mangle]
extern "C" fn symx_param(i: u32, d: u64) -> u64 {
    RUN.with(|r| r.borrow().params.iter().find(|p| p.0 == i).map_or(d, |p| p.1))
}
#[no_mangle]
extern "C" fn symx_assume(c: bool) {
    if !c {
        println!("assume");
        let _ = std::io::stdout().flush();
        std::process::exit(4)
    }
}
#[no_mangle]
extern "C" fn symx_assert(c: bool, id: u32) {
    event(id as u64 | 1 << 32);
    if !c {
        die(&format!("fail {id}"))
    }
}
#[no_mangle]
extern "C" fn symx_cover(id: u32) {
    event(id as u64 | 2 << 32);
}
#[no_mangle]
extern "C" fn symx_observe(x: u64) {
    event(x)
}
#[no_mangle]
extern "C" fn symx_concrete(x: u64) -> u64 {
    x
}

fn main() {
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let mut it = line.split('|');
        let (entry, params, inputs) = (it.next().unwrap(), it.next().unwrap(), it.next().unwrap());
        let f = TABLE
            .iter()
            .flat_map(|t| t.iter())
            .find(|(n, _)| *n == entry)
            .unwrap_or_else(|| {
                println!("no such entry");
                std::process::exit(5)
            })
            .1;
        RUN.with(|r| {
            *r.borrow_mut() = Run {
                inputs: inputs
                    .split(',')
                    .filter(|s| !s.is_empty())
                    .map(|s| u64::from_str_radix(s.split(':').nth(1).unwrap(), 16).unwrap())
                    .collect(),
                params: params
                    .split(',')
                    .filter(|s| !s.is_empty())
                    .map(|s| {
                        let (k, v) = s.split_once('=').unwrap();
                        (k.parse().unwrap(), v.parse().unwrap())
                    })
                    .collect(),
                ..Run::default()
            }
        });
        f();
        let ev = RUN.with(|r| std::mem::take(&mut r.borrow_mut().events));
        let ev: Vec<String> = ev.iter().map(|x| format!("{x:x}")).collect();
        println!("ok {}", ev.join(","));
    }
}
