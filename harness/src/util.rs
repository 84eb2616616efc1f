//! Recording helpers: JSON lines, a small deterministic PRNG, guarded calls into the library
//! (a panic is data), and a watchdog that reports a call that never returns.
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

static BEAT: AtomicU64 = AtomicU64::new(0);
static LABEL: Mutex<String> = Mutex::new(String::new());

/// Describe the case that is about to be executed (reported if it hangs or kills the process).
pub fn label(s: &str) {
    BEAT.fetch_add(1, Ordering::Relaxed);
    let mut l = LABEL.lock().unwrap();
    l.clear();
    l.push_str(s);
}

/// Call the library; `None` means it refused (panicked).
pub fn call<T>(f: impl FnOnce() -> T) -> Option<T> {
    BEAT.fetch_add(1, Ordering::Relaxed);
    catch_unwind(AssertUnwindSafe(f)).ok()
}

pub fn start_watchdog(hang_file: String) {
    // QLVERIF_LOUD shows every panic, for looking into the machinery itself
    let loud = std::env::var("QLVERIF_LOUD").is_ok();
    std::panic::set_hook(Box::new(move |p| if loud { eprintln!("{}", p) }));
    std::thread::spawn(move || {
        let mut last = u64::MAX;
        let mut same = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = BEAT.load(Ordering::Relaxed);
            if now == last {
                same += 1;
            } else {
                same = 0;
            }
            last = now;
            if same >= 60 {
                // 30 s inside one library call
                let l = LABEL.lock().map(|x| x.clone()).unwrap_or_default();
                let _ = std::fs::write(&hang_file, &l);
                eprintln!("HANG {}", l);
                std::process::exit(42);
            }
        }
    });
}

/// splitmix64
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(0x1234_5678_9ABC_DEF1))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn i32(&mut self, lo: i32, hi: i32) -> i32 {
        self.range(lo as i64, hi as i64) as i32
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[(self.next() % xs.len() as u64) as usize]
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.next() % den < num
    }
}

/// A JSON value writer.
pub trait ToJ {
    fn j(&self, out: &mut String);
}
impl ToJ for i32 {
    fn j(&self, out: &mut String) {
        let _ = write!(out, "{}", self);
    }
}
impl ToJ for i64 {
    fn j(&self, out: &mut String) {
        let v = (*self).clamp(-2147483647, 2147483647);
        let _ = write!(out, "{}", v);
    }
}
impl ToJ for u32 {
    fn j(&self, out: &mut String) {
        (*self as i64).j(out)
    }
}
impl ToJ for usize {
    fn j(&self, out: &mut String) {
        (*self as i64).j(out)
    }
}
impl ToJ for bool {
    fn j(&self, out: &mut String) {
        out.push_str(if *self { "1" } else { "0" });
    }
}
impl ToJ for str {
    fn j(&self, out: &mut String) {
        out.push('"');
        for c in self.chars() {
            match c {
                '"' => out.push_str("\\\""),
                '\\' => out.push_str("\\\\"),
                c if (c as u32) < 32 || (c as u32) > 126 => {
                    let _ = write!(out, "?{:x}?", c as u32);
                }
                c => out.push(c),
            }
        }
        out.push('"');
    }
}
impl ToJ for String {
    fn j(&self, out: &mut String) {
        self.as_str().j(out)
    }
}
impl<T: ToJ> ToJ for Vec<T> {
    fn j(&self, out: &mut String) {
        self.as_slice().j(out)
    }
}
impl<T: ToJ + ?Sized> ToJ for &T {
    fn j(&self, out: &mut String) {
        (**self).j(out)
    }
}
impl<T: ToJ> ToJ for [T] {
    fn j(&self, out: &mut String) {
        out.push('[');
        for (k, x) in self.iter().enumerate() {
            if k > 0 {
                out.push(',');
            }
            x.j(out);
        }
        out.push(']');
    }
}
/// Raw JSON fragment
#[derive(Clone)]
pub struct Raw(pub String);
impl ToJ for Raw {
    fn j(&self, out: &mut String) {
        out.push_str(&self.0);
    }
}
macro_rules! tup {
    ($($n:ident $i:tt),*) => {
        impl<$($n: ToJ),*> ToJ for ($($n,)*) {
            fn j(&self, out: &mut String) {
                out.push('[');
                $( if $i > 0 { out.push(','); } self.$i.j(out); )*
                out.push(']');
            }
        }
    };
}
tup!(A 0, B 1);
tup!(A 0, B 1, C 2);
tup!(A 0, B 1, C 2, D 3);
tup!(A 0, B 1, C 2, D 3, E 4);
tup!(A 0, B 1, C 2, D 3, E 4, F 5);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, K 9);

#[macro_export]
macro_rules! obj {
    ($($k:ident : $v:expr),* $(,)?) => {{
        let mut s = String::from("{");
        let mut _first = true;
        $(
            if !_first { s.push(','); }
            _first = false;
            s.push_str(concat!("\"", stringify!($k), "\":"));
            $crate::util::ToJ::j(&$v, &mut s);
        )*
        s.push('}');
        $crate::util::Raw(s)
    }};
}

/// Trace writer: one JSON object per line.
pub struct Out {
    w: std::io::BufWriter<std::fs::File>,
    pub n: usize,
}
impl Out {
    pub fn new(path: &str) -> Self {
        Out {
            w: std::io::BufWriter::new(std::fs::File::create(path).expect("trace file")),
            n: 0,
        }
    }
    pub fn rec(&mut self, r: Raw) {
        self.w.write_all(r.0.as_bytes()).unwrap();
        self.w.write_all(b"\n").unwrap();
        self.n += 1;
    }
    pub fn finish(mut self) {
        self.w.flush().unwrap();
    }
}

pub struct Cfg {
    pub thorough: bool,
    pub seed: u64,
    pub input: Option<String>,
}
impl Cfg {
    pub fn rng(&self, salt: u64) -> Rng {
        Rng::new(self.seed.wrapping_mul(1000003).wrapping_add(salt))
    }
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
}
