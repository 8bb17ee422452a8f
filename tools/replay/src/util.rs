//! Shared helpers: printing, parsing, capturing the error stream.
use koopa::back::{KoopaGenerator, LlvmGenerator};
use koopa::front::Driver;
use koopa::ir::Program;
use std::os::raw::{c_int, c_void};
use std::sync::Mutex;

pub fn print(p: &Program) -> String {
    let mut g = KoopaGenerator::new(vec![]);
    g.generate_on(p).unwrap();
    String::from_utf8(g.writer()).expect("printed text is UTF-8")
}
pub fn print_llvm(p: &Program) -> String {
    let mut g = LlvmGenerator::new(vec![]);
    g.generate_on(p).unwrap();
    String::from_utf8(g.writer()).expect("printed text is UTF-8")
}
/// a writer whose `at`th write fails, and works again afterwards
pub struct Failing {
    pub at: usize,
    pub calls: usize,
    pub text: Vec<u8>,
}
impl std::io::Write for Failing {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.calls == self.at {
            return Err(std::io::Error::other("this write fails"));
        }
        self.text.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// printing reports an error when a write fails: success only after the whole text
pub fn failing_writes(p: &Program, llvm: bool, r: &mut crate::rng::Rng, tries: usize) -> Result<(), String> {
    let go = |at: usize| {
        let w = Failing { at, calls: 0, text: vec![] };
        if llvm {
            let mut g = LlvmGenerator::new(w);
            (g.generate_on(p).is_ok(), g.writer())
        } else {
            let mut g = KoopaGenerator::new(w);
            (g.generate_on(p).is_ok(), g.writer())
        }
    };
    let (ok, all) = go(0);
    if !ok {
        return Err("printing fails although no write does".into());
    }
    if all.calls == 0 {
        return Ok(());
    }
    for i in 0..tries {
        let at = if i == 0 { all.calls } else { 1 + r.below(all.calls) };
        let (ok, w) = go(at);
        if ok && w.text != all.text {
            return Err(format!("write {at} of {} fails, {} of {} bytes written, and success is reported (llvm: {llvm})", all.calls, w.text.len(), all.text.len()));
        }
    }
    Ok(())
}
pub fn read(text: &[u8]) -> Result<Program, ()> {
    Driver::new(koopa::front::span::FileType::Buffer, text).generate_program().map_err(|_| ())
}

unsafe extern "C" {
    fn dup(fd: c_int) -> c_int;
    fn dup2(a: c_int, b: c_int) -> c_int;
    fn close(fd: c_int) -> c_int;
    fn open(p: *const std::os::raw::c_char, flags: c_int, ...) -> c_int;
    fn lseek(fd: c_int, o: i64, w: c_int) -> i64;
    fn ftruncate(fd: c_int, l: i64) -> c_int;
}
mod sys {
    use std::os::raw::{c_int, c_void};
    unsafe extern "C" {
        pub fn read(fd: c_int, b: *mut c_void, n: usize) -> isize;
    }
}
static LOCK: Mutex<()> = Mutex::new(());

/// error messages of the front end go nowhere from now on
pub fn mute() {
    unsafe {
        let n = open(c"/dev/null".as_ptr(), 1, 0);
        if n >= 0 {
            dup2(n, 2);
            close(n);
        }
    }
}

/// file descriptor 2 goes to a scratch file while this lives
pub struct Capture {
    saved: c_int,
    fd: c_int,
    _g: std::sync::MutexGuard<'static, ()>,
}
impl Capture {
    pub fn new() -> Self {
        let g = LOCK.lock().unwrap_or_else(|e| e.into_inner());
        unsafe {
            let path = format!("/tmp/replay-err-{}\0", std::process::id());
            let fd = open(path.as_ptr().cast(), 0o2 | 0o100 | 0o1000, 0o600);
            let _ = std::fs::remove_file(&path[..path.len() - 1]);
            let saved = dup(2);
            dup2(fd, 2);
            Capture { saved, fd, _g: g }
        }
    }
    /// what was written since the last call
    pub fn take(&mut self) -> Vec<u8> {
        unsafe {
            let n = lseek(self.fd, 0, 1).max(0) as usize;
            lseek(self.fd, 0, 0);
            let mut v = vec![0u8; n];
            let mut k = 0;
            while k < n {
                let r = sys::read(self.fd, v[k..].as_mut_ptr() as *mut c_void, n - k);
                if r <= 0 {
                    break;
                }
                k += r as usize;
            }
            v.truncate(k);
            ftruncate(self.fd, 0);
            lseek(self.fd, 0, 0);
            v
        }
    }
}
impl Drop for Capture {
    fn drop(&mut self) {
        unsafe {
            dup2(self.saved, 2);
            close(self.saved);
            close(self.fd);
        }
    }
}
