//! Buffers, error codes and files of the C interface.
use crate::ctx::Ctx;
use crate::gen_prog::{Opts, gen_program};
use crate::gen_text::*;
use crate::rng::Rng;
use crate::util::{failing_writes, mute, print, print_llvm, read};
use koopa::ir::builder_traits::*;
use koopa::ir::*;
use libkoopa_rlib::*;
use std::ffi::{CStr, CString, c_char};
use std::os::fd::{FromRawFd, IntoRawFd};
use std::path::{Path, PathBuf};
use std::ptr::null_mut;

fn code(e: ErrorCode) -> i32 {
    e as i32
}
const OK: i32 = ErrorCode::Success as i32;
type Dump = extern "C" fn(&Program, *mut c_char, &mut usize) -> ErrorCode;
type DumpFile = extern "C" fn(&Program, *const c_char) -> ErrorCode;
type DumpRaw = extern "C" fn(&Program, i32) -> ErrorCode;

fn buffers(p: &Program, text: &str, f: Dump, r: &mut Rng) -> Result<(), String> {
    let n = text.len();
    // no buffer: only the length
    let mut len = r.below(1000);
    let e = code(f(p, null_mut(), &mut len));
    if e != OK || len != n {
        return Err(format!("no buffer: code {e}, length {len} instead of {n}"));
    }
    let lens = [0, 1, n / 2, n.saturating_sub(1), n, n + 1, n + 2, n + 100, r.below(n + 50)];
    for l in lens {
        let guard = 128;
        let mut buf = vec![0xA5u8; guard + n + 300 + guard];
        let mut len = l;
        let e = code(f(p, unsafe { buf.as_mut_ptr().add(guard) } as *mut c_char, &mut len));
        if buf[..guard].iter().any(|b| *b != 0xA5) || buf[guard + l.min(n + 300)..].iter().any(|b| *b != 0xA5) {
            return Err(format!("length {l}: writes outside the buffer"));
        }
        if l < n + 1 {
            if e != ErrorCode::InsufficientBufferLength as i32 {
                return Err(format!("length {l} of {n}: code {e}"));
            }
            if buf.iter().any(|b| *b != 0xA5) {
                return Err(format!("length {l} of {n}: writes into a buffer that is too small"));
            }
        } else {
            if e != OK {
                return Err(format!("length {l} of {n}: code {e}"));
            }
            if &buf[guard..guard + n] != text.as_bytes() || buf[guard + n] != 0 {
                return Err(format!("length {l} of {n}: wrong text"));
            }
            if buf[guard + n + 1..guard + l].iter().any(|b| *b != 0xA5) {
                return Err(format!("length {l} of {n}: writes behind the terminator"));
            }
        }
    }
    Ok(())
}

fn cpath(p: &Path) -> CString {
    CString::new(p.as_os_str().as_encoded_bytes()).unwrap()
}

fn files(p: &Program, text: &str, f: DumpFile, g: DumpRaw, dir: &PathBuf) -> Result<(), String> {
    let path = dir.join("out");
    // an existing longer file is replaced
    std::fs::write(&path, "x".repeat(text.len() + 50)).unwrap();
    let e = code(f(p, cpath(&path).as_ptr()));
    let got = std::fs::read(&path).unwrap();
    if e != OK || got != text.as_bytes() {
        return Err(format!("file: code {e}, text as expected: {}", got == text.as_bytes()));
    }
    let e = code(f(p, cpath(&dir.join("none/out")).as_ptr()));
    if e != ErrorCode::InvalidFile as i32 {
        return Err(format!("missing directory: code {e}"));
    }
    let e = code(f(p, c"/tmp/\xff".as_ptr()));
    if e != ErrorCode::InvalidUtf8String as i32 {
        return Err(format!("path that is not UTF-8: code {e}"));
    }
    if !text.is_empty() {
        let e = code(f(p, c"/dev/full".as_ptr()));
        if e != ErrorCode::IoError as i32 {
            return Err(format!("full device: code {e}"));
        }
        let fd = std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap().into_raw_fd();
        let e = code(g(p, fd));
        if e != ErrorCode::IoError as i32 {
            return Err(format!("full device, raw: code {e}"));
        }
    }
    let fd = std::fs::File::create(&path).unwrap().into_raw_fd();
    let e = code(g(p, fd));
    let got = std::fs::read(&path).unwrap();
    if e != OK || got != text.as_bytes() {
        return Err(format!("raw file: code {e}, text as expected: {}", got == text.as_bytes()));
    }
    Ok(())
}

fn parse(text: &[u8], dir: &PathBuf) -> Result<(), String> {
    let want = read(text).ok().map(|p| print(&p));
    let check = |what: &str, e: i32, q: *mut Program| -> Result<(), String> {
        let got = if q.is_null() { None } else { Some(print(&*unsafe { Box::from_raw(q) })) };
        let ok = want.is_some();
        let code = if ok { OK } else { ErrorCode::InvalidKoopaProgram as i32 };
        if e != code || got != want {
            return Err(format!("{what}: code {e} instead of {code}, program as expected: {}", got == want));
        }
        Ok(())
    };
    let mut q = null_mut();
    let path = dir.join("in");
    std::fs::write(&path, text).unwrap();
    let e = code(unsafe { koopa_parse_from_file(cpath(&path).as_ptr(), &mut q) });
    check("file", e, q)?;
    q = null_mut();
    let fd = std::fs::File::open(&path).unwrap().into_raw_fd();
    let e = code(koopa_parse_from_raw(fd, &mut q));
    check("raw file", e, q)?;
    if let Ok(s) = CString::new(text) {
        q = null_mut();
        let e = code(unsafe { koopa_parse_from_string(s.as_ptr(), &mut q) });
        if s.to_str().is_err() {
            if e != ErrorCode::InvalidUtf8String as i32 || !q.is_null() {
                return Err(format!("string that is not UTF-8: code {e}"));
            }
        } else {
            check("string", e, q)?;
        }
    }
    q = null_mut();
    let e = code(unsafe { koopa_parse_from_file(cpath(&dir.join("none")).as_ptr(), &mut q) });
    if e != ErrorCode::InvalidFile as i32 || !q.is_null() {
        return Err(format!("missing file: code {e}"));
    }
    let e = code(unsafe { koopa_parse_from_file(c"\xff".as_ptr(), &mut q) });
    if e != ErrorCode::InvalidUtf8String as i32 || !q.is_null() {
        return Err(format!("path that is not UTF-8: code {e}"));
    }
    Ok(())
}

/// raw programs that do not satisfy the rules
fn bad_raw(r: &mut Rng) -> Result<(), String> {
    let o = Opts { max_bbs: 2, ..Opts::small() };
    let mut p = gen_program(r, &o);
    let which = r.below(6);
    if which == 5 {
        // a name that is not UTF-8 can only come from a client
        p.new_func_decl("@q".into(), vec![], Type::get_unit());
    }
    let mut b = RawProgramBuilder::new();
    let mut raw = b.build_on(&p);
    let nf = raw.funcs.len as usize;
    {
        // nothing broken yet: a program comes back
        let mut q: *mut Program = null_mut();
        let e = code(koopa_generate_raw_to_koopa(&raw, &mut q));
        if e != OK || q.is_null() {
            return Err(format!("good raw program: code {e}, program {}", if q.is_null() { "absent" } else { "present" }));
        }
        let n = unsafe { Box::from_raw(q) }.funcs().len();
        if n != nf {
            return Err(format!("good raw program: {n} functions instead of {nf}"));
        }
    }
    let fs: Vec<RawFunction> = (0..nf).map(|i| unsafe { *(raw.funcs.buffer as *const RawFunction).add(i) }).collect();
    let want;
    let f = fs[r.below(nf)] as *mut RawFunctionData;
    let bad_name = [0xffu8, 0];
    let i32t = RawTypeKind::Int32;
    unsafe {
        match which {
            0 => {
                raw.values.kind = RawSliceItemKind::Function;
                want = ErrorCode::RawSliceItemKindMismatch;
            }
            1 => {
                raw.funcs.kind = RawSliceItemKind::Unknown;
                want = ErrorCode::RawSliceItemKindMismatch;
            }
            2 => {
                (*f).name = std::ptr::null();
                want = ErrorCode::NullPointerError;
            }
            3 => {
                (*f).ty = &i32t;
                want = ErrorCode::TypeMismatch;
            }
            4 => {
                let Some(f) = fs.iter().find(|f| (***f).bbs.len > 0) else { return Ok(()) };
                let f = *f as *mut RawFunctionData;
                let RawTypeKind::Function(ps, _) = &*(*f).ty else { return Err("type".into()) };
                if ps.len == 0 {
                    return Ok(());
                }
                (*f).params.len -= 1;
                want = ErrorCode::FuncParamNumMismatch;
            }
            _ => {
                (*f).name = bad_name.as_ptr() as *const c_char;
                want = ErrorCode::InvalidUtf8String;
            }
        }
    }
    let mut q: *mut Program = null_mut();
    let e = code(koopa_generate_raw_to_koopa(&raw, &mut q));
    let want = want as i32;
    if e != want || !q.is_null() {
        return Err(format!("bad raw program ({which}): code {e} instead of {want}, program {}", if q.is_null() { "absent" } else { "present" }));
    }
    Ok(())
}

pub fn run(c: &mut Ctx) {
    c.rule = "random programs dumped into buffers of every critical length with guard areas, into files, full devices and bad paths; valid and invalid texts parsed from file, descriptor and string; raw programs with a broken rule".into();
    mute();
    let dir = std::env::temp_dir().join(format!("replay-c14-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    c.case("nul", "a name with a NUL byte".into(), true, || {
        let mut p = Program::new();
        p.new_func_decl("@a\0b".into(), vec![], Type::get_unit());
        for f in [koopa_dump_to_string as Dump, koopa_dump_llvm_to_string] {
            for nobuf in [true, false] {
                let mut len = 77;
                let mut buf = vec![0xA5u8; 100];
                let e = code(f(&p, if nobuf { null_mut() } else { buf.as_mut_ptr() as *mut c_char }, &mut len));
                if e != ErrorCode::NullByteError as i32 || len != 77 || buf.iter().any(|b| *b != 0xA5) {
                    return Err(format!("code {e}, length {len}"));
                }
            }
        }
        Ok(())
    });
    c.case("codes", "error codes of the shipped header".into(), true, || {
        let h = std::fs::read_to_string("/repo/libkoopa/include/koopa.h").map_err(|e| e.to_string())?;
        let mut next = 0;
        let mut codes = std::collections::HashMap::new();
        for l in h.lines().map(str::trim).filter(|l| l.starts_with("KOOPA_EC_")) {
            let l = l.split("//").next().unwrap().trim().trim_end_matches(',');
            let (n, v) = match l.split_once('=') {
                Some((n, v)) => (n.trim(), v.trim().parse().map_err(|_| format!("header: {l}"))?),
                None => (l, next),
            };
            codes.insert(n.to_string(), v);
            next = v + 1;
        }
        for (n, v) in [
            ("KOOPA_EC_SUCCESS", code(ErrorCode::Success)),
            ("KOOPA_EC_INVALID_UTF8_STRING", code(ErrorCode::InvalidUtf8String)),
            ("KOOPA_EC_INVALID_FILE", code(ErrorCode::InvalidFile)),
            ("KOOPA_EC_INVALID_KOOPA_PROGRAM", code(ErrorCode::InvalidKoopaProgram)),
            ("KOOPA_EC_IO_ERROR", code(ErrorCode::IoError)),
            ("KOOPA_EC_NULL_BYTE_ERROR", code(ErrorCode::NullByteError)),
            ("KOOPA_EC_INSUFFICIENT_BUFFER_LENGTH", code(ErrorCode::InsufficientBufferLength)),
            ("KOOPA_EC_RAW_SLICE_ITEM_KIND_MISMATCH", code(ErrorCode::RawSliceItemKindMismatch)),
            ("KOOPA_EC_NULL_POINTER_ERROR", code(ErrorCode::NullPointerError)),
            ("KOOPA_EC_TYPE_MISMATCH", code(ErrorCode::TypeMismatch)),
            ("KOOPA_EC_FUNC_PARAM_NUM_MISMATCH", code(ErrorCode::FuncParamNumMismatch)),
        ] {
            if codes.get(n) != Some(&v) {
                return Err(format!("the library reports {v} for {n}, the header says {:?}", codes.get(n)));
            }
        }
        Ok(())
    });
    while c.time_left() {
        let s = c.rng.next();
        let mut r = Rng::new(s);
        match r.below(8) {
            0..=3 => {
                let mut p = gen_program(&mut r, &Opts { max_funcs: 2, max_bbs: 3, ..Opts::text() });
                if r.chance(1, 20) {
                    p = Program::new();
                }
                if r.chance(1, 6) {
                    let i = p.new_value().integer(1);
                    let g = p.new_value().global_alloc(i);
                    p.set_value_name(g, Some("@größe".into()));
                }
                let files_too = r.chance(1, 4);
                c.case("dump", format!("program, seed {s}"), true, || {
                    let (k, l) = (print(&p), print_llvm(&p));
                    buffers(&p, &k, koopa_dump_to_string, &mut r).map_err(|e| format!("koopa: {e}"))?;
                    buffers(&p, &l, koopa_dump_llvm_to_string, &mut r).map_err(|e| format!("llvm: {e}"))?;
                    failing_writes(&p, r.chance(1, 2), &mut r, 6)?;
                    if files_too {
                        files(&p, &k, koopa_dump_to_file, koopa_dump_to_raw, &dir)?;
                        files(&p, &l, koopa_dump_llvm_to_file, koopa_dump_llvm_to_raw, &dir)?;
                    }
                    Ok(())
                });
            }
            4 | 5 => c.case("raw", format!("bad raw program, seed {s}"), true, || bad_raw(&mut r)),
            k => {
                let t = if k == 6 { crate::c09::text(&mut r) } else { soup(&mut r) };
                let d = format!("seed {s}: {:?}", String::from_utf8_lossy(&t[..t.len().min(300)]));
                c.case("parse", d, !t.is_empty(), || parse(&t, &dir));
            }
        }
    }
    let _ = (CStr::from_bytes_with_nul(b"\0"), unsafe { std::mem::ManuallyDrop::new(std::fs::File::from_raw_fd(2)) });
    let _ = std::fs::remove_dir_all(&dir);
}
