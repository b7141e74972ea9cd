//! An untouched copy of this process, forked before any monitored call and asked on demand what a
//! call returns when it is the very first one. Every answer comes from a fork of that copy, so no
//! answer has a history. This is the oracle for "the same value as alone".
use crate::inst::Dyn;
use crate::util::*;
use std::fs::File;
use std::io::{BufRead, BufReader, Write};
use std::os::fd::FromRawFd;
use std::sync::{Mutex, OnceLock};

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn close(fd: i32) -> i32;
}

struct Link {
    to: File,
    from: BufReader<File>,
    asked: u64,
}
static LINK: OnceLock<Mutex<Link>> = OnceLock::new();
static POOL: OnceLock<Vec<Box<dyn Dyn>>> = OnceLock::new();

pub fn pool() -> &'static [Box<dyn Dyn>] {
    POOL.get().expect("harness: pool not built")
}

fn parse_el(s: &str) -> El {
    let mut e = [0u64; 4];
    for (i, l) in s.split('.').enumerate() {
        e[i] = u64::from_str_radix(l, 16).unwrap_or(0);
    }
    e
}
fn show_el(e: &El) -> String {
    format!("{:x}.{:x}.{:x}.{:x}", e[0], e[1], e[2], e[3])
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Perm(usize),
    Compress,
    Tree,
}

pub fn run(d: &dyn Dyn, op: Op, x: &[El]) -> Result<Vec<El>, String> {
    catch(|| match op {
        Op::Perm(e) => d.call(e, x),
        Op::Compress => vec![d.compress(x)],
        Op::Tree => vec![d.tree(x)],
    })
}

/// Must be called while the process has a single thread.
pub fn start(pool: Vec<Box<dyn Dyn>>) {
    let _ = POOL.set(pool);
    if cfg!(miri) {
        return;
    }
    let (mut a, mut b) = ([0i32; 2], [0i32; 2]);
    unsafe {
        if pipe(a.as_mut_ptr()) != 0 || pipe(b.as_mut_ptr()) != 0 {
            inconclusive("cannot make pipes");
        }
        let pid = fork();
        if pid < 0 {
            inconclusive("cannot fork");
        }
        if pid == 0 {
            close(a[1]);
            close(b[0]);
            serve(BufReader::new(File::from_raw_fd(a[0])), File::from_raw_fd(b[1]));
        }
        close(a[0]);
        close(b[1]);
        let _ = LINK.set(Mutex::new(Link { to: File::from_raw_fd(a[1]), from: BufReader::new(File::from_raw_fd(b[0])), asked: 0 }));
    }
}

unsafe fn serve(mut from: BufReader<File>, mut to: File) -> ! {
    loop {
        let mut line = String::new();
        if from.read_line(&mut line).unwrap_or(0) == 0 {
            _exit(0);
        }
        let pid = fork();
        if pid < 0 {
            let _ = to.write_all(b"nofork\n");
            continue;
        }
        if pid == 0 {
            let w: Vec<&str> = line.split_whitespace().collect();
            let custom = w[0].strip_prefix('r').map(|s| crate::history::recipe(s.parse().unwrap()));
            let d: &dyn Dyn = match &custom {
                Some(d) => &**d,
                None => &*pool()[w[0].parse::<usize>().unwrap()],
            };
            let op = match w[1] {
                "c" => Op::Compress,
                "t" => Op::Tree,
                e => Op::Perm(e.parse().unwrap()),
            };
            let x: Vec<El> = w[2..].iter().map(|s| parse_el(s)).collect();
            let mut out = match run(d, op, &x) {
                Ok(v) => format!("ok {}", v.iter().map(show_el).collect::<Vec<_>>().join(" ")),
                Err(_) => "panic".to_string(),
            };
            out.push('\n');
            let _ = to.write_all(out.as_bytes());
            _exit(0);
        }
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        if st != 0 {
            let _ = to.write_all(b"crash\n");
        }
    }
}

/// None: the call alone panics or crashes.
pub fn ask(idx: usize, op: Op, x: &[El]) -> Option<Vec<El>> {
    ask_of(&idx.to_string(), op, x)
}
/// As `ask`, on a generated parameter set that the pristine copy rebuilds from its number.
pub fn ask_recipe(seed: u64, op: Op, x: &[El]) -> Option<Vec<El>> {
    ask_of(&format!("r{}", seed), op, x)
}
fn ask_of(idx: &str, op: Op, x: &[El]) -> Option<Vec<El>> {
    let mut l = LINK.get().expect("harness: no pristine process").lock().unwrap();
    l.asked += 1;
    let o = match op {
        Op::Compress => "c".to_string(),
        Op::Tree => "t".to_string(),
        Op::Perm(e) => e.to_string(),
    };
    let line = format!("{} {} {}\n", idx, o, x.iter().map(show_el).collect::<Vec<_>>().join(" "));
    let mut ans = String::new();
    if l.to.write_all(line.as_bytes()).is_err() || l.from.read_line(&mut ans).unwrap_or(0) == 0 {
        inconclusive("the pristine process is gone");
    }
    let ans = ans.trim();
    if ans == "nofork" {
        inconclusive("the pristine process cannot fork");
    }
    ans.strip_prefix("ok").map(|r| r.split_whitespace().map(parse_el).collect())
}

pub fn available() -> bool {
    LINK.get().is_some()
}
pub fn asked() -> u64 {
    LINK.get().map(|l| l.lock().unwrap().asked).unwrap_or(0)
}
