//! Shared parts of the replay and bounded-search harness.  These files are
//! compiled as modules of a scratch copy of /repo's crate, so that they call
//! the real code; nothing here is a model of it.
#![allow(dead_code)]
use std::collections::HashSet;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;

pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234_5678_9ABC_DEF1)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + (self.next() % ((b - a + 1) as u64)) as i64
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let n = self.below(xs.len());
        &xs[n]
    }
}

/// 32-bit values around every boundary the assembler cares about.
pub fn edges() -> Vec<i32> {
    let mut v: Vec<i32> = vec![];
    for c in [
        0i64, 3, 4, 7, 8, 127, 128, 129, 255, 256, 511, 512, 2047, 2048, 4095, 4096, 8191, 8192, 32767, 32768, 61439,
        61440, 65535, 65536, 65537, 131072, 16777216, 2147483647,
    ] {
        for d in [-2i64, -1, 0, 1, 2] {
            for s in [1i64, -1] {
                let x = s * c + d;
                if x >= i32::MIN as i64 && x <= i32::MAX as i64 {
                    v.push(x as i32);
                }
            }
        }
    }
    v.push(i32::MIN);
    v.push(i32::MIN + 1);
    v.sort();
    v.dedup();
    v
}

pub struct Report {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub dir: PathBuf,
    pub cases: u64,
    pub nontrivial: u64,
    pub exhaustive: bool,
    pub rule: String,
    pub samples: Vec<String>,
    pub failures: Vec<(String, String, String, String)>,
    pub started: std::time::Instant,
    pub budget: f64,
    pub seen: HashSet<u64>,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Report {
    pub fn fail(&mut self, what: &str, input: String, expected: String, actual: String) {
        if self.failures.len() < 5 {
            self.failures.push((what.to_owned(), input, expected, actual));
        }
    }
    pub fn stop(&self) -> bool {
        !self.failures.is_empty()
    }
    pub fn sample(&mut self, s: String) {
        if self.samples.len() < 4 {
            self.samples.push(s);
        }
    }
    /// true while there is time left and nothing has failed
    pub fn more(&self) -> bool {
        !self.stop() && self.started.elapsed().as_secs_f64() < self.budget
    }
    /// counts a case; `key` identifies it for the distinct count
    pub fn case(&mut self, key: &str, nontrivial: bool) {
        self.cases += 1;
        if nontrivial && self.seen.len() < 4_000_000 {
            let mut h: u64 = 0xcbf29ce484222325;
            for b in key.as_bytes() {
                h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
            }
            if self.seen.insert(h) {
                self.nontrivial += 1;
            }
        }
    }
    pub fn print(&self) {
        let mut o = String::new();
        let _ = write!(
            o,
            "{{\"cases\":{},\"distinct_nontrivial\":{},\"exhaustive\":{},\"rule\":{},\"samples\":[{}],\"failures\":[{}]}}",
            self.cases,
            self.nontrivial,
            self.exhaustive,
            esc(&self.rule),
            self.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
            self.failures
                .iter()
                .map(|(w, i, e, a)| format!(
                    "{{\"what\":{},\"input\":{},\"expected\":{},\"actual\":{}}}",
                    esc(w),
                    esc(i),
                    esc(e),
                    esc(a)
                ))
                .collect::<Vec<_>>()
                .join(",")
        );
        println!("VHREPORT {}", o);
    }
}

/// Number of the real-code call being run; even while none is.
pub static CALLS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

struct Call;
impl Call {
    fn new() -> Call {
        CALLS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        Call
    }
}
impl Drop for Call {
    fn drop(&mut self) {
        CALLS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    }
}

/// A call into the code under test that takes this long does not terminate.
pub const HANG: u64 = 60;

fn watchdog() {
    std::thread::spawn(|| {
        let mut last = (0u64, std::time::Instant::now());
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let c = CALLS.load(std::sync::atomic::Ordering::SeqCst);
            if c != last.0 {
                last = (c, std::time::Instant::now());
            } else if c % 2 == 1 && last.1.elapsed().as_secs() >= HANG {
                println!("VHHANG");
                std::process::exit(4);
            }
        }
    });
}

/// Runs real code; a panic is a result like any other.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let _call = Call::new();
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_owned()
        };
        format!("panic: {}", m)
    })
}

/// Runs the command line in `dir` in a process of its own: exit code, stdout, stderr.
pub fn cli(dir: &std::path::Path, args: &[&str]) -> (i32, Vec<u8>, Vec<u8>) {
    let exe = std::env::current_exe().expect("own path");
    let o = guarded(|| {
        std::process::Command::new(exe).arg("vh-cli").args(args).current_dir(dir).env("PWD", dir).output().expect("run")
    })
    .expect("run the command line");
    (o.status.code().unwrap_or(-1), o.stdout, o.stderr)
}

/// First word of a Debug rendering: the error's variant.
pub fn kind<T: std::fmt::Debug>(e: &T) -> String {
    let s = format!("{:?}", e);
    s.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect()
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i > 0 {
            s.push(' ');
        }
        if i >= 600 {
            let _ = write!(s, "... ({} bytes)", b.len());
            break;
        }
        let _ = write!(s, "{:02x}", x);
    }
    s
}

pub type Outcome = Result<Vec<u8>, String>;

pub fn show(o: &Outcome) -> String {
    match o {
        Ok(b) => format!("{} bytes: {}", b.len(), hex(b)),
        Err(e) => format!("error {}", e),
    }
}

/// Assembles a program text with the real assembler: bytes, or the error's kind.
pub fn assemble_text(dir: &PathBuf, text: &str) -> Outcome {
    let path = dir.join("case.s");
    std::fs::write(&path, text).expect("write case");
    assemble_path(&path)
}

pub fn assemble_path(path: &PathBuf) -> Outcome {
    let name = path.to_string_lossy().to_string();
    match guarded(|| {
        let mut files = crate::files::SourceFiles::new();
        crate::asm::assemble_file(&mut files, &name).map_err(|e| kind(&e))
    }) {
        Ok(r) => r,
        Err(p) => Err(p),
    }
}

pub fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s == "vh-cli").unwrap_or(false) {
        // the command line of the code under test
        crate::run_command(&args[1..]);
        return;
    }
    std::panic::set_hook(Box::new(|_| {}));
    let thorough = args.get(3).map(|s| s == "thorough").unwrap_or(false);
    let mut r = Report {
        prop: args[1].clone(),
        seed: args[2].parse().unwrap_or(1),
        thorough,
        dir: PathBuf::from(&args[4]),
        cases: 0,
        nontrivial: 0,
        exhaustive: false,
        rule: String::new(),
        samples: vec![],
        failures: vec![],
        started: std::time::Instant::now(),
        budget: args.get(5).and_then(|s| s.parse().ok()).unwrap_or(20.0),
        seen: HashSet::new(),
    };
    watchdog();
    // deep recursion in the code under test must not be limited by the main thread's stack
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            crate::vh_prop::run(&mut r);
            r.print();
        })
        .unwrap();
    if h.join().is_err() {
        println!("VHCRASH the harness itself panicked");
        std::process::exit(3);
    }
}
