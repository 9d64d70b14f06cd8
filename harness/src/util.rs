//! Shared pieces: seeded random numbers, strict-encoding access to private state, failure reports.
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

use strict_encoding::{StreamReader, StreamWriter, StrictDecode, StrictEncode, StrictReader};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn flip(&mut self) -> bool { self.next() & 1 == 1 }
    pub fn bytes32(&mut self) -> [u8; 32] {
        let mut b = [0u8; 32];
        for c in b.chunks_mut(8) { c.copy_from_slice(&self.next().to_le_bytes()); }
        b
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.next() as u8).collect() }
}

pub fn enc<T: StrictEncode>(t: &T) -> Vec<u8> {
    let mut v = Vec::new();
    let w = StreamWriter::new::<{ usize::MAX }>(&mut v);
    t.strict_write(w).expect("in-memory serialization");
    v
}
/// strict decoding of a whole buffer
pub fn dec<T: StrictDecode>(b: &[u8]) -> Option<T> {
    let mut r = StrictReader::with(StreamReader::in_memory::<{ usize::MAX }>(b));
    let t = T::strict_decode(&mut r).ok()?;
    let c = r.into_cursor();
    if c.position() as usize == b.len() { Some(t) } else { None }
}
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

/// A property violation: the failing input and what went wrong.
pub struct Fail { pub input: String, pub what: String }
pub type R = Result<(), Fail>;
pub fn fail<T>(input: impl Into<String>, what: impl Into<String>) -> Result<T, Fail> { Err(Fail { input: input.into(), what: what.into() }) }

#[macro_export]
macro_rules! check {
    ($cond:expr, $input:expr, $($what:tt)*) => { if !($cond) { return $crate::util::fail($input, format!($($what)*)); } };
}
thread_local! { pub static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
/// Runs the code under test; a panic becomes Err(message at location).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}
/// Runs the code under test where it must not crash.
pub fn run<T>(input: &dyn Fn() -> String, what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    guard(f).map_err(|p| Fail { input: input(), what: format!("{what} crashed: {p}") })
}
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let mut msg: String = msg.chars().take(600).collect();
        if let Some(l) = i.location() { msg += &format!(" at {}:{}", l.file(), l.line()); }
        PANIC.with(|p| *p.borrow_mut() = msg);
    }));
}
pub struct Ctx { pub rng: Rng, pub deep: bool, pub cases: u64, pub notes: Vec<String> }
impl Ctx {
    /// quick / thorough amount
    pub fn n(&self, quick: u64, thorough: u64) -> u64 { if self.deep { thorough } else { quick } }
    pub fn note(&mut self, s: impl Into<String>) { self.notes.push(s.into()); }
}
pub fn flush() { let _ = std::io::stdout().flush(); }
