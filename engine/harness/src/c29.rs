//! C29: the text loggers.
//!
//! The subject is what is printed, in which order and with which precision, not the conversion of
//! numbers to digits (std): under Kani every number prints as one letter, '#' for the iteration
//! number (or time), '@' for the goal value, '?' for any other number.
use optlib::tools::logging::{Logger, ResultOnlyLogger, TimeLogger, VerboseLogger};
use optlib::AlgorithmState;
use std::fmt;
use std::io;
use std::time::{Duration, Instant};

/// A coordinate: printed as one letter; must be printed with the chosen precision.
#[derive(Clone)]
struct Co(u8);
impl fmt::Display for Co {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        unsafe {
            assert!(f.precision() == Some(PREC.v), "precision of a coordinate");
        }
        let b = [self.0];
        f.write_str(unsafe { std::str::from_utf8_unchecked(&b) })
    }
}
const MAX: usize = 64;
nd::state! {
    PREC: usize = 3;
    OUT: [u8; MAX] = [0; MAX];
    LEN: usize = 0;
    ITER: usize = 0;
    GOAL: f64 = 0.0;
    MS: u64 = 0;
}

fn letter(f: &mut fmt::Formatter<'_>, c: u8) -> fmt::Result {
    let b = [c];
    f.write_str(unsafe { std::str::from_utf8_unchecked(&b) })
}
// ---- stubs -----------------------------------------------------------------------------------
pub fn show_f64(x: &f64, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    unsafe {
        assert!(f.precision() == Some(PREC.v), "precision of the goal value");
        letter(f, if x.to_bits() == GOAL.v.to_bits() { b'@' } else { b'?' })
    }
}
pub fn show_usize(x: &usize, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    unsafe { letter(f, if *x == ITER.v { b'#' } else { b'?' }) }
}
pub fn show_u64(x: &u64, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    unsafe { letter(f, if *x == MS.v { b'#' } else { b'?' }) }
}
pub fn show_u128(x: &u128, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    unsafe { letter(f, if *x == MS.v as u128 { b'#' } else { b'?' }) }
}
/// A text buffer of concrete capacity.
pub fn push_str(s: &mut String, t: &str) {
    let v = unsafe { s.as_mut_vec() };
    if v.capacity() < CAP {
        // a text made in another way (String::from...): into a buffer of the usual capacity
        let mut w = Vec::new();
        w.reserve_exact(CAP);
        for i in 0..v.len() {
            w.push(v[i]);
        }
        *v = w;
    }
    let b = t.as_bytes();
    for i in 0..b.len() {
        assert!(v.len() < CAP, "room for the text");
        unsafe {
            let n = v.len();
            *v.as_mut_ptr().add(n) = b[i];
            v.set_len(n + 1);
        }
    }
}
pub fn write_str(s: &mut String, t: &str) -> fmt::Result {
    push_str(s, t);
    Ok(())
}
pub fn format(a: fmt::Arguments<'_>) -> String {
    let mut s = str_wc(0);
    let r = fmt::write(&mut s, a);
    assert!(r.is_ok(), "printing");
    s
}
pub fn str_wc(_n: usize) -> String {
    let mut s = String::new();
    unsafe { s.as_mut_vec() }.reserve_exact(CAP);
    s
}
const CAP: usize = 32;
nd::state! {
    NOW: (u64, u32) = (0, 0);
}
/// The symbolic clock.
pub fn now() -> Instant {
    let z: Instant = unsafe { std::mem::zeroed() };
    unsafe { z + Duration::new(NOW.v.0, NOW.v.1) }
}
fn pass(d: Duration) {
    #[cfg(not(kani))]
    std::thread::sleep(d);
    unsafe {
        let n = Duration::new(NOW.v.0, NOW.v.1) + d;
        NOW.v = (n.as_secs(), n.subsec_nanos());
    }
}

struct W;
impl io::Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        unsafe {
            for i in 0..b.len() {
                assert!(LEN.v < MAX, "more text than expected");
                OUT.v[LEN.v] = b[i];
                LEN.v += 1;
            }
        }
        Ok(b.len())
    }
    fn write_all(&mut self, b: &[u8]) -> io::Result<()> {
        self.write(b)?;
        Ok(())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
struct S {
    best: Option<(Vec<Co>, f64)>,
}
impl AlgorithmState<Vec<Co>> for S {
    fn get_best_solution(&self) -> Option<(Vec<Co>, f64)> {
        self.best.clone()
    }
    fn get_iteration(&self) -> usize {
        unsafe { ITER.v }
    }
}

/// The words (separated by white space) and the number of lines written.
struct Read {
    at: usize,
}
impl Read {
    fn byte(&self) -> u8 {
        unsafe {
            if self.at < LEN.v {
                OUT.v[self.at]
            } else {
                0
            }
        }
    }
    /// Skips blanks and expects this word.
    fn word(&mut self, w: &[u8]) {
        for _ in 0..MAX {
            let b = self.byte();
            if b != b' ' && b != b'\n' {
                break;
            }
            self.at += 1;
        }
        for i in 0..w.len() {
            assert!(self.byte() == w[i], "the printed text");
            self.at += 1;
        }
        let b = self.byte();
        assert!(b == b' ' || b == b'\n', "end of the printed word");
    }
    /// Only blanks up to the end of the line.
    fn line(&mut self) {
        for _ in 0..MAX {
            if self.byte() != b' ' {
                break;
            }
            self.at += 1;
        }
        assert!(self.byte() == b'\n', "end of the line");
        self.at += 1;
    }
    /// No line break before the next word.
    fn same_line(&mut self) {
        for _ in 0..MAX {
            if self.byte() != b' ' {
                break;
            }
            self.at += 1;
        }
        assert!(self.byte() != b'\n', "one line");
    }
    fn iter(&mut self) {
        #[cfg(kani)]
        self.word(b"#");
        #[cfg(not(kani))]
        self.word(format!("{}", unsafe { ITER.v }).as_bytes());
    }
    fn goal(&mut self) {
        #[cfg(kani)]
        self.word(b"@");
        #[cfg(not(kani))]
        self.word(format!("{:.*}", unsafe { PREC.v }, unsafe { GOAL.v }).as_bytes());
    }
    fn end(&self) {
        unsafe { assert!(self.at == LEN.v, "nothing else is printed") }
    }
}

/// A state with d symbolic coordinates, a symbolic goal and a symbolic iteration number.
fn state(some: bool, d: usize) -> (S, [u8; 4]) {
    let mut l = [0u8; 4];
    let mut v = Vec::new();
    unsafe {
        ITER.v = nd::usize();
        GOAL.v = nd::f64();
        nd::assume(GOAL.v.is_finite());
    }
    for i in 0..d {
        l[i] = nd::u8();
        nd::assume(l[i] >= b'A' && l[i] <= b'Z');
        v.push(Co(l[i]));
    }
    (S { best: if some { Some((v, unsafe { GOAL.v })) } else { None } }, l)
}

fn verbose(some: bool, d: usize, n: usize, prec: usize) {
    unsafe { PREC.v = prec }
    let mut w = W;
    let mut log = VerboseLogger::new(&mut w, prec);
    let mut r = Read { at: 0 };
    let (s, _) = state(some, d);
    log.start(&s);
    log.resume(&s);
    r.end();
    for _ in 0..n {
        let (s, l) = state(some, d);
        log.next_iteration(&s);
        if some {
            r.iter();
            for i in 0..d {
                r.same_line();
                r.word(&l[i..i + 1]);
            }
            r.same_line();
            r.goal();
            r.line();
        }
        r.end();
    }
    log.finish(&s);
    r.end();
    reach!("end");
}

fn result(some: bool, d: usize, prec: usize) {
    unsafe { PREC.v = prec }
    let mut w = W;
    let mut log = ResultOnlyLogger::new(&mut w, prec);
    let mut r = Read { at: 0 };
    let (s, l) = state(some, d);
    log.start(&s);
    log.resume(&s);
    log.next_iteration(&s);
    r.end();
    log.finish(&s);
    if some {
        r.word(b"Solution:");
        for i in 0..d {
            r.word(&l[i..i + 1]);
        }
        r.word(b"Goal:");
        r.goal();
    } else {
        r.word(b"Solution");
        r.word(b"not");
        r.word(b"found");
    }
    r.word(b"Iterations");
    r.word(b"count:");
    r.iter();
    r.line();
    r.end();
    reach!("end");
}

fn any_duration() -> Duration {
    let (s, n) = (nd::u8(), nd::u32());
    nd::assume(s <= 2 && n < 1_000_000_000);
    Duration::new(s as u64, n)
}
fn time(runs: usize) {
    let mut w = W;
    let mut log: TimeLogger = TimeLogger::new(&mut w);
    let mut r = Read { at: 0 };
    let (s, _) = state(false, 0);
    for _ in 0..runs {
        log.start(&s);
        pass(any_duration());
        log.resume(&s);
        let d = any_duration();
        pass(d);
        log.next_iteration(&s);
        unsafe { MS.v = d.as_nanos() as u64 / 1_000_000 }
        r.end();
        log.finish(&s);
        r.word(b"Time");
        r.word(b"elapsed:");
        #[cfg(kani)]
        r.word(b"#");
        #[cfg(not(kani))]
        {
            // real time: up to 100 ms more than the requested sleep
            let n = unsafe { LEN.v };
            let t = unsafe { String::from_utf8(OUT.v[r.at..n].to_vec()).unwrap() };
            let ms: u64 = t.split_whitespace().next().unwrap().parse().unwrap();
            let min = unsafe { MS.v };
            assert!(ms >= min && ms <= min + 100, "{} ms printed, {} ms passed", ms, min);
            r.word(format!("{}", ms).as_bytes());
        }
        r.word(b"ms");
        r.line();
        r.end();
    }
    reach!("end");
}

harnesses! {
    #[kani::unwind(16)]
    #[kani::stub(std::string::String::with_capacity, crate::c29::str_wc)]
    #[kani::stub(std::fmt::format, crate::c29::format)]
    #[kani::stub(std::string::String::push_str, crate::c29::push_str)]
    #[kani::stub(<std::string::String as std::fmt::Write>::write_str, crate::c29::write_str)]
    #[kani::stub(<f64 as std::fmt::Display>::fmt, crate::c29::show_f64)]
    #[kani::stub(<usize as std::fmt::Display>::fmt, crate::c29::show_usize)]
    #[kani::stub(<u64 as std::fmt::Display>::fmt, crate::c29::show_u64)]
    #[kani::stub(<u128 as std::fmt::Display>::fmt, crate::c29::show_u128)]
    fn q_verbose_1() { verbose(true, 1, 1, 3) }
    #[kani::unwind(16)]
    #[kani::stub(std::string::String::with_capacity, crate::c29::str_wc)]
    #[kani::stub(std::fmt::format, crate::c29::format)]
    #[kani::stub(std::string::String::push_str, crate::c29::push_str)]
    #[kani::stub(<std::string::String as std::fmt::Write>::write_str, crate::c29::write_str)]
    #[kani::stub(<f64 as std::fmt::Display>::fmt, crate::c29::show_f64)]
    #[kani::stub(<usize as std::fmt::Display>::fmt, crate::c29::show_usize)]
    #[kani::stub(<u64 as std::fmt::Display>::fmt, crate::c29::show_u64)]
    #[kani::stub(<u128 as std::fmt::Display>::fmt, crate::c29::show_u128)]
    fn q_verbose_2() { verbose(true, 2, 1, 0) }
    #[kani::unwind(20)]
    #[kani::stub(std::string::String::with_capacity, crate::c29::str_wc)]
    #[kani::stub(std::fmt::format, crate::c29::format)]
    #[kani::stub(std::string::String::push_str, crate::c29::push_str)]
    #[kani::stub(<std::string::String as std::fmt::Write>::write_str, crate::c29::write_str)]
    #[kani::stub(<f64 as std::fmt::Display>::fmt, crate::c29::show_f64)]
    #[kani::stub(<usize as std::fmt::Display>::fmt, crate::c29::show_usize)]
    #[kani::stub(<u64 as std::fmt::Display>::fmt, crate::c29::show_u64)]
    #[kani::stub(<u128 as std::fmt::Display>::fmt, crate::c29::show_u128)]
    fn q_verbose_twice() { verbose(true, 1, 2, 5) }
    #[kani::unwind(16)]
    #[kani::stub(std::string::String::with_capacity, crate::c29::str_wc)]
    #[kani::stub(std::fmt::format, crate::c29::format)]
    #[kani::stub(std::string::String::push_str, crate::c29::push_str)]
    #[kani::stub(<std::string::String as std::fmt::Write>::write_str, crate::c29::write_str)]
    #[kani::stub(<f64 as std::fmt::Display>::fmt, crate::c29::show_f64)]
    #[kani::stub(<usize as std::fmt::Display>::fmt, crate::c29::show_usize)]
    #[kani::stub(<u64 as std::fmt::Display>::fmt, crate::c29::show_u64)]
    #[kani::stub(<u128 as std::fmt::Display>::fmt, crate::c29::show_u128)]
    fn q_verbose_none() { verbose(false, 1, 2, 3) }
    #[kani::unwind(26)]
    #[kani::stub(std::string::String::with_capacity, crate::c29::str_wc)]
    #[kani::stub(std::fmt::format, crate::c29::format)]
    #[kani::stub(std::string::String::push_str, crate::c29::push_str)]
    #[kani::stub(<std::string::String as std::fmt::Write>::write_str, crate::c29::write_str)]
    #[kani::stub(<f64 as std::fmt::Display>::fmt, crate::c29::show_f64)]
    #[kani::stub(<usize as std::fmt::Display>::fmt, crate::c29::show_usize)]
    #[kani::stub(<u64 as std::fmt::Display>::fmt, crate::c29::show_u64)]
    #[kani::stub(<u128 as std::fmt::Display>::fmt, crate::c29::show_u128)]
    fn q_result_1() { result(true, 1, 3) }
    #[kani::unwind(26)]
    #[kani::stub(std::string::String::with_capacity, crate::c29::str_wc)]
    #[kani::stub(std::fmt::format, crate::c29::format)]
    #[kani::stub(std::string::String::push_str, crate::c29::push_str)]
    #[kani::stub(<std::string::String as std::fmt::Write>::write_str, crate::c29::write_str)]
    #[kani::stub(<f64 as std::fmt::Display>::fmt, crate::c29::show_f64)]
    #[kani::stub(<usize as std::fmt::Display>::fmt, crate::c29::show_usize)]
    #[kani::stub(<u64 as std::fmt::Display>::fmt, crate::c29::show_u64)]
    #[kani::stub(<u128 as std::fmt::Display>::fmt, crate::c29::show_u128)]
    fn q_result_2() { result(true, 2, 0) }
    #[kani::unwind(26)]
    #[kani::stub(std::string::String::with_capacity, crate::c29::str_wc)]
    #[kani::stub(std::fmt::format, crate::c29::format)]
    #[kani::stub(std::string::String::push_str, crate::c29::push_str)]
    #[kani::stub(<std::string::String as std::fmt::Write>::write_str, crate::c29::write_str)]
    #[kani::stub(<f64 as std::fmt::Display>::fmt, crate::c29::show_f64)]
    #[kani::stub(<usize as std::fmt::Display>::fmt, crate::c29::show_usize)]
    #[kani::stub(<u64 as std::fmt::Display>::fmt, crate::c29::show_u64)]
    #[kani::stub(<u128 as std::fmt::Display>::fmt, crate::c29::show_u128)]
    fn q_result_none() { result(false, 0, 3) }
    #[kani::unwind(20)]
    #[kani::stub(std::string::String::with_capacity, crate::c29::str_wc)]
    #[kani::stub(std::fmt::format, crate::c29::format)]
    #[kani::stub(std::string::String::push_str, crate::c29::push_str)]
    #[kani::stub(<std::string::String as std::fmt::Write>::write_str, crate::c29::write_str)]
    #[kani::stub(<f64 as std::fmt::Display>::fmt, crate::c29::show_f64)]
    #[kani::stub(<usize as std::fmt::Display>::fmt, crate::c29::show_usize)]
    #[kani::stub(<u64 as std::fmt::Display>::fmt, crate::c29::show_u64)]
    #[kani::stub(<u128 as std::fmt::Display>::fmt, crate::c29::show_u128)]
    #[kani::stub(std::time::Instant::now, crate::c29::now)]
    fn q_time() { time(1) }
    #[kani::unwind(26)]
    #[kani::stub(std::string::String::with_capacity, crate::c29::str_wc)]
    #[kani::stub(std::fmt::format, crate::c29::format)]
    #[kani::stub(std::string::String::push_str, crate::c29::push_str)]
    #[kani::stub(<std::string::String as std::fmt::Write>::write_str, crate::c29::write_str)]
    #[kani::stub(<f64 as std::fmt::Display>::fmt, crate::c29::show_f64)]
    #[kani::stub(<usize as std::fmt::Display>::fmt, crate::c29::show_usize)]
    #[kani::stub(<u64 as std::fmt::Display>::fmt, crate::c29::show_u64)]
    #[kani::stub(<u128 as std::fmt::Display>::fmt, crate::c29::show_u128)]
    #[kani::stub(std::time::Instant::now, crate::c29::now)]
    fn q_time_2() { time(2) }
}
