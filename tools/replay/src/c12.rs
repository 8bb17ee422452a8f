//! A C client built with a C compiler from the shipped header reads raw programs.
use crate::canon::{Mode, canon};
use crate::ctx::Ctx;
use crate::gen_prog::{Opts, gen_program};
use crate::rng::Rng;
use koopa::ir::*;
use libkoopa_rlib::*;
use std::ffi::{CStr, CString, c_char, c_int, c_void};
use std::mem::{offset_of, size_of};
use std::path::PathBuf;

unsafe extern "C" {
    fn dlopen(p: *const c_char, f: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, s: *const c_char) -> *mut c_void;
}

pub struct Client {
    text: extern "C" fn(*const c_void) -> *const c_char,
    table: extern "C" fn(*mut usize) -> *const usize,
}

/// compiles the client against the header of the tree under check
pub fn client() -> Result<Client, String> {
    let dir = std::env::temp_dir().join(format!("replay-c12-{}", std::process::id()));
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let r = build(&dir);
    let _ = std::fs::remove_dir_all(&dir);
    r
}
fn build(dir: &PathBuf) -> Result<Client, String> {
    let src = concat!(env!("CARGO_MANIFEST_DIR"), "/client");
    let so = dir.join("client.so");
    let o = std::process::Command::new("gcc")
        .args(["-O1", "-shared", "-fPIC", "-I/repo/libkoopa/include", "-I", src, "-o"])
        .arg(&so)
        .arg(format!("{src}/client.c"))
        .output()
        .map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(format!("a C client does not compile against the header:\n{}", String::from_utf8_lossy(&o.stderr)));
    }
    let c = CString::new(so.to_str().unwrap()).unwrap();
    unsafe {
        let h = dlopen(c.as_ptr(), 2);
        if h.is_null() {
            return Err("client not loadable".into());
        }
        Ok(Client {
            text: std::mem::transmute(dlsym(h, c"client_text".as_ptr())),
            table: std::mem::transmute(dlsym(h, c"client_table".as_ptr())),
        })
    }
}

fn table() -> Vec<usize> {
    let mut v: Vec<usize> = vec![
        ErrorCode::Success as usize,
        ErrorCode::InvalidUtf8String as usize,
        ErrorCode::InvalidFile as usize,
        ErrorCode::InvalidKoopaProgram as usize,
        ErrorCode::IoError as usize,
        ErrorCode::NullByteError as usize,
        ErrorCode::InsufficientBufferLength as usize,
        ErrorCode::RawSliceItemKindMismatch as usize,
        ErrorCode::NullPointerError as usize,
        ErrorCode::TypeMismatch as usize,
        ErrorCode::FuncParamNumMismatch as usize,
        RawSliceItemKind::Unknown as usize,
        RawSliceItemKind::Type as usize,
        RawSliceItemKind::Function as usize,
        RawSliceItemKind::BasicBlock as usize,
        RawSliceItemKind::Value as usize,
    ];
    use RawBinaryOp::*;
    v.extend([NotEq, Eq, Gt, Lt, Ge, Le, Add, Sub, Mul, Div, Mod, And, Or, Xor, Shl, Shr, Sar].map(|o| o as usize));
    macro_rules! t {
        ($($t:ty { $($f:ident),* })*) => { $( v.push(size_of::<$t>()); $( v.push(offset_of!($t, $f)); )* )* };
    }
    t! {
        RawSlice { buffer, len, kind }
        RawTypeKind {}
        RawProgram { values, funcs }
        RawFunctionData { ty, name, params, bbs }
        RawBasicBlockData { name, params, used_by, insts }
        RawValueData { ty, name, used_by, kind }
        RawValueKind {}
        RawInteger { value }
        RawAggregate { elems }
        RawFuncArgRef { index }
        RawBlockArgRef { index }
        RawGlobalAlloc { init }
        RawLoad { src }
        RawStore { value, dest }
        RawGetPtr { src, index }
        RawGetElemPtr { src, index }
        RawBinary { op, lhs, rhs }
        RawBranch { cond, true_bb, false_bb, true_args, false_args }
        RawJump { target, args }
        RawCall { callee, args }
        RawReturn { value }
    }
    v
}

/// canonical text plus the numbers of users of blocks and instructions
pub fn expected(p: &Program) -> String {
    let m = Mode { bfs: false, sort_funcs: false, names: true };
    let mut o = String::new();
    let t = canon(p, m);
    // split the canonical text into functions to append the users after each
    let mut parts: Vec<String> = vec![String::new()];
    for l in t.lines() {
        if l.starts_with("fun ") || l.starts_with("decl ") {
            parts.push(String::new());
        }
        let k = parts.len() - 1;
        parts[k].push_str(l);
        parts[k].push('\n');
    }
    o.push_str(&parts[0]);
    for (part, f) in parts[1..].iter().zip(p.func_layout()) {
        o.push_str(part);
        let fd = p.func(*f);
        for (k, (b, n)) in fd.layout().bbs().iter().enumerate() {
            o.push_str(&format!("  users b{k} {}\n", fd.dfg().bb(*b).used_by().len()));
            for (j, v) in n.insts().keys().enumerate() {
                o.push_str(&format!("  users v{k}.{j} {}\n", fd.dfg().value(*v).used_by().len()));
            }
        }
    }
    o
}

pub fn run(c: &mut Ctx) {
    c.rule = "sizes, offsets and tags seen by a C compiler; random programs read by a C client through the header, including two programs built with one builder".into();
    let cl = match client() {
        Ok(c) => c,
        Err(e) => {
            c.case("client", "compile the client".into(), true, || Err(e));
            return;
        }
    };
    c.case("table", "sizes, offsets, tags".into(), true, || {
        let mut n = 0;
        let p = (cl.table)(&mut n);
        let got = unsafe { std::slice::from_raw_parts(p, n) };
        let want = table();
        if got != want {
            let i = got.iter().zip(&want).position(|(a, b)| a != b);
            return Err(format!("entry {i:?} of client/table.inc differs: header {:?}, library {:?}", i.map(|i| got[i]), i.map(|i| want[i])));
        }
        Ok(())
    });
    while c.time_left() {
        let s = c.rng.next();
        let mut r = Rng::new(s);
        let o = Opts { max_bbs: *r.pick(&[1, 4, 8]), named: *r.pick(&[0, 60, 100]), ..Opts::small() };
        let p = gen_program(&mut r, &o);
        let q = gen_program(&mut r, &o);
        c.case("program", format!("seed {s} {o:?}"), true, || {
            let b = koopa_new_raw_program_builder();
            let read = |p: &Program| -> (RawProgram, String) {
                let raw = koopa_build_raw_program(unsafe { &mut *b }, p);
                let t = unsafe { CStr::from_ptr((cl.text)(&raw as *const _ as *const c_void)) }.to_string_lossy().into_owned();
                (raw, t)
            };
            let (pr, pt) = read(&p);
            let (_, qt) = read(&q);
            // the first raw program lives as long as its builder
            let again = unsafe { CStr::from_ptr((cl.text)(&pr as *const _ as *const c_void)) }.to_string_lossy().into_owned();
            let (_, twice) = read(&p);
            unsafe { koopa_delete_raw_program_builder(b) };
            for (what, got, want) in [("first", pt, &p), ("second", qt, &q), ("first after the second was built", again, &p), ("first built again", twice, &p)] {
                let want = expected(want);
                if got != want {
                    let d = got.lines().zip(want.lines()).find(|(a, b)| a != b);
                    return Err(format!("the client reads another program ({what}): {d:?}\n--- client\n{got}\n--- program\n{want}"));
                }
            }
            Ok(())
        });
    }
}
