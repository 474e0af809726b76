//! Harness programs for symbolic execution (jobs) and for native replay of recorded inputs.
#![allow(clippy::all)]
#[allow(unused_imports)]
pub mod common;
pub mod bld;
pub mod p01;
pub mod p02;
pub mod p03;
pub mod p04;
pub mod p05;
pub mod p06;
pub mod p07;
pub mod p08;
pub mod p09;
pub mod p10;
pub mod p11;
pub mod p12;
pub mod p13;
pub mod p14;
pub mod p15;
pub mod p16;
pub mod p17;
pub mod p18;
pub mod p19;
pub mod p20;
pub mod spec;
pub mod sym;

use std::io::{BufRead, Write};

pub struct Job {
    pub prop: &'static str,
    pub name: String,
    pub func: &'static str,
    pub run: extern "C" fn(u64),
    pub arg: u64,
    pub thorough: bool,
    pub paths: u64,
    pub secs: u64,
}

pub struct Jobs(pub Vec<Job>, pub &'static str);
impl Jobs {
    pub fn add(&mut self, func: &'static str, run: extern "C" fn(u64), arg: u64, thorough: bool, paths: u64, secs: u64) {
        let n = func.trim_start_matches("h_");
        self.0.push(Job { prop: self.1, name: format!("{n}.{arg}"), func, run, arg, thorough, paths, secs });
    }
}
/// jobs!(list; quick f(args..) paths secs; ...)
#[macro_export]
macro_rules! job {
    ($j:expr, $f:ident, $args:expr) => { $crate::job!($j, $f, $args, false, 20000, 120) };
    ($j:expr, $f:ident, $args:expr, $thorough:expr) => { $crate::job!($j, $f, $args, $thorough, 20000, 120) };
    ($j:expr, $f:ident, $args:expr, $thorough:expr, $paths:expr, $secs:expr) => {
        for a in $args { $j.add(stringify!($f), $f, a as u64, $thorough, $paths, $secs); }
    };
}

fn jobs() -> Vec<Job> {
    let mut j = Jobs(vec![], "P01");
    p01::jobs(&mut j);
    p02::jobs(&mut j);
    p03::jobs(&mut j);
    p04::jobs(&mut j);
    p05::jobs(&mut j);
    p06::jobs(&mut j);
    p07::jobs(&mut j);
    p08::jobs(&mut j);
    p09::jobs(&mut j);
    p10::jobs(&mut j);
    p11::jobs(&mut j);
    p12::jobs(&mut j);
    p13::jobs(&mut j);
    p14::jobs(&mut j);
    p15::jobs(&mut j);
    p16::jobs(&mut j);
    p17::jobs(&mut j);
    p18::jobs(&mut j);
    p19::jobs(&mut j);
    p20::jobs(&mut j);
    j.0
}

extern "C" {
    fn sym_run(f: extern "C" fn(u64), arg: u64, k: *const u8, v: *const u64, n: usize, out: *mut u8, cap: usize) -> i32;
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let jobs = jobs();
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for j in &jobs {
                println!("{} {} {} {} {} {} {}", j.prop, if j.thorough { "thorough" } else { "quick" }, j.name, j.func, j.arg, j.secs, j.paths);
            }
        }
        // lines: job-name k:v k:v ..   (one report line each)
        Some("replay") => {
            let mut buf = vec![0u8; 1 << 18];
            for l in std::io::stdin().lock().lines() {
                let l = l.unwrap();
                let mut it = l.split_whitespace();
                let Some(name) = it.next() else { continue };
                let Some(j) = jobs.iter().find(|j| j.name == name) else {
                    println!("NOJOB:{name}");
                    continue;
                };
                let mut k = vec![];
                let mut v = vec![];
                for t in it {
                    let (x, y) = t.split_once(':').unwrap();
                    k.push(x.parse::<u8>().unwrap());
                    v.push(y.parse::<u64>().unwrap());
                }
                let r = unsafe { sym_run(j.run, j.arg, k.as_ptr(), v.as_ptr(), k.len(), buf.as_mut_ptr(), buf.len()) };
                let n = buf.iter().position(|b| *b == 0).unwrap_or(0);
                let t = if r == 0 { String::from_utf8_lossy(&buf[..n]).into_owned() } else { "RUNFAIL".into() };
                println!("{}", t.replace('\n', " "));
                std::io::stdout().flush().unwrap();
            }
        }
        _ => {
            eprintln!("usage: harness list | replay");
            std::process::exit(2);
        }
    }
}
