//@ source libkoopa
//@ include shim/base.vx
verus! {
//@ path c_char => i8
//@ path RawFd => i32
//@ path RawFile => i32
//@ rule from_raw_parts_mut(__p as *mut u8, __n) => vx_buf_mut(__p, __n, Tracked(&mut *mem))
//@ rule __b.copy_from_slice(__s) => __b.copy_from_slice(__s, Tracked(&mut *mem))
//@ rule Box::into_raw(Box::new(__t)) => vx_leak(__t)
//@ rule __p.is_null() => vx_is_null(__p)
//@ rule dump_to_string::<KoopaVisitor>(__a, __b, __c) => dump_to_string::<KoopaVisitor>(__a, __b, __c, Tracked(&mut *mem))
//@ rule dump_to_string::<LlvmVisitor>(__a, __b, __c) => dump_to_string::<LlvmVisitor>(__a, __b, __c, Tracked(&mut *mem))

pub type RawProgram = VxRawProgram;
#[verifier::external_body]
pub struct VxRawProgram { x: usize }
#[verifier::external_body]
pub struct Program { x: usize }
#[verifier::external_body]
pub struct File { x: usize }
#[verifier::external_body]
pub struct Stdout { x: usize }
#[verifier::external_body]
pub struct Stdin { x: usize }
#[verifier::external_body]
pub struct VxErr { x: usize }
#[verifier::external_body]
pub struct CStr { x: usize }
#[verifier::external_body]
pub struct CString { x: usize }
pub enum FileType { File, Stdin, Buffer }

//@ item errors::ErrorCode

// the codes as C sees them (constants of the shipped header and of the library, extracted on every run)
#[verifier::opaque]
pub open spec fn vx_up(a: int, b: int) -> int { ((a + b - 1) / b) * b }
pub open spec fn vx_max(a: int, b: int) -> int { if a < b { b } else { a } }
//@ cheader C_KOOPA_EC_
//@ rlayout errors
} // verus!
//@ include shim/errcodes.vx
verus! {

/// What an operation denotes; the contracts below say when each code is returned.
pub uninterp spec fn text<V>(p: Program) -> Seq<u8>;               // what visitor V writes for p
pub uninterp spec fn gen_ok<W, V>(w: W, p: Program) -> bool;        // V can write p to w
pub uninterp spec fn bytes_of<W>(w: W) -> Seq<u8>;
pub uninterp spec fn c_utf8(p: *const i8) -> Option<Seq<char>>;     // the C string at p, if UTF-8
pub uninterp spec fn opened(path: Seq<char>) -> Option<File>;       // opening for reading
pub uninterp spec fn created(path: Seq<char>) -> Option<File>;      // creating for writing
pub uninterp spec fn fd_file(fd: i32) -> File;
pub uninterp spec fn the_stdin() -> Stdin;
pub uninterp spec fn the_stdout() -> Stdout;
pub uninterp spec fn str_reader(s: Seq<char>) -> Seq<u8>;
pub uninterp spec fn parsed(src: Seq<u8>) -> Option<Program>;       // what the front end makes of a text
pub uninterp spec fn content<T>(t: T) -> Seq<u8>;
pub uninterp spec fn raw_denotes(r: VxRawProgram) -> Result<Program, ErrorCode>;
pub uninterp spec fn pointee<T>(p: *mut T) -> T;

/// The caller's buffer: `cap` bytes at `addr`.
pub tracked struct Mem { pub ghost addr: *mut i8, pub ghost data: Seq<u8> }

#[verifier::external_body]
pub fn vx_is_null(p: *mut i8) -> (r: bool)
    ensures r == null(p),
{ unimplemented!() }
pub uninterp spec fn null(p: *mut i8) -> bool;

pub struct VxBuf { pub p: *mut i8, pub n: usize }
/// slice::from_raw_parts_mut: the memory must be valid for the whole length
pub fn vx_buf_mut(p: *mut i8, n: usize, Tracked(mem): Tracked<&mut Mem>) -> (r: VxBuf)
    requires !null(p), old(mem).addr == p, n <= old(mem).data.len(),
    ensures r.p == p, r.n == n, *final(mem) == *old(mem),
{ VxBuf { p, n } }
impl VxBuf {
    #[verifier::external_body]
    pub fn copy_from_slice(&self, s: &[u8], Tracked(mem): Tracked<&mut Mem>)
        requires s@.len() == self.n, old(mem).addr == self.p, self.n <= old(mem).data.len(),
        ensures final(mem).addr == old(mem).addr, final(mem).data == s@ + old(mem).data.subrange(self.n as int, old(mem).data.len() as int),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_leak<T>(t: T) -> (r: *mut T)
    ensures pointee(r) == t,
{ unimplemented!() }

impl CStr {
    pub uninterp spec fn at(self) -> *const i8;
    #[verifier::external_body]
    pub fn from_ptr<'a>(p: *const i8) -> (r: &'a CStr)
        ensures r.at() == p,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Result<&str, VxErr>)
        ensures match r { Ok(s) => c_utf8(self.at()) == Some(s@), Err(_) => c_utf8(self.at()) is None },
    { unimplemented!() }
}
impl CString {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new(b: VxBytes) -> (r: Result<CString, VxErr>)
        ensures match r { Ok(s) => s@ == b.b && !b.b.contains(0u8), Err(_) => b.b.contains(0u8) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bytes_with_nul(&self) -> (r: &[u8])
        ensures r@ == self@.push(0u8),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8])
        ensures r@ == self@,
    { unimplemented!() }
}
pub struct VxBytes { pub ghost b: Seq<u8> }

pub trait Visitor<W> {}
pub struct KoopaVisitor { x: usize }
pub struct LlvmVisitor { x: usize }
impl<W> Visitor<W> for KoopaVisitor {}
impl<W> Visitor<W> for LlvmVisitor {}
impl Default for KoopaVisitor { #[verifier::external_body] fn default() -> Self { unimplemented!() } }
impl Default for LlvmVisitor { #[verifier::external_body] fn default() -> Self { unimplemented!() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(W)]
#[verifier::reject_recursive_types(V)]
pub struct Generator<W, V> { w: W, v: V }
impl<W, V> Generator<W, V> {
    pub uninterp spec fn w(self) -> W;
    #[verifier::external_body]
    pub fn new(w: W) -> (r: Self)
        ensures r.w() == w,
    { unimplemented!() }
    /// koopa's Generator::generate_on: an error exactly when writing failed
    #[verifier::external_body]
    pub fn generate_on(&mut self, p: &Program) -> (r: Result<(), VxErr>)
        ensures
            r is Ok == gen_ok::<W, V>(old(self).w(), *p),
            r is Ok ==> bytes_of(final(self).w()) == bytes_of(old(self).w()) + text::<V>(*p),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn writer(&mut self) -> (r: VxBytes)
        ensures r.b == bytes_of(old(self).w()), *final(self) == *old(self),
    { unimplemented!() }
}
impl<V> Generator<File, V> {
    #[verifier::external_body]
    pub fn from_path(path: &str) -> (r: Result<Self, VxErr>)
        ensures match r { Ok(g) => created(path@) == Some(g.w()), Err(_) => created(path@) is None },
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_new_bytes() -> (r: Vec<u8>)
    ensures r@ == Seq::<u8>::empty(), bytes_of(r) == r@,
{ unimplemented!() }
#[verifier::external_body]
pub fn stdout() -> (r: Stdout)
    ensures r == the_stdout(),
{ unimplemented!() }
#[verifier::external_body]
pub fn stdin() -> (r: Stdin)
    ensures r == the_stdin(),
{ unimplemented!() }
pub trait FromRawFd: Sized { fn from_raw_fd(fd: i32) -> Self; }
impl File {
    #[verifier::external_body]
    pub fn from_raw_fd(fd: i32) -> (r: File)
        ensures r == fd_file(fd),
    { unimplemented!() }
}

#[verifier::external_body]
pub struct Driver { x: usize }
impl Driver {
    pub uninterp spec fn src(self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new<T>(ft: FileType, t: T) -> (r: Driver)
        ensures r.src() == content(t),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from<T>(t: T) -> (r: Driver)
        ensures r.src() == content(t),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_path(path: &str) -> (r: Result<Driver, VxErr>)
        ensures match r { Ok(d) => opened(path@) is Some && d.src() == content(opened(path@)->0), Err(_) => opened(path@) is None },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn generate_program(self) -> (r: Result<Program, VxErr>)
        ensures match r { Ok(p) => parsed(self.src()) == Some(p), Err(_) => parsed(self.src()) is None },
    { unimplemented!() }
}
#[verifier::external_body]
pub fn generate_program(r: &RawProgram) -> (p: Result<Program, ErrorCode>)
    ensures p == raw_denotes(*r), p is Err ==> !(p->Err_0 is Success),
{ unimplemented!() }

//@ fn utils::new_pointer
    ensures pointee(r) == t,
//@ end
//@ fn io::file_from_raw
    ensures r == fd_file(fd),
//@ end

pub open spec fn file_result<V>(c: ErrorCode, path: *const i8, p: Program) -> bool {
    match c_utf8(path) {
        None => c is InvalidUtf8String,
        Some(s) => match created(s) {
            None => c is InvalidFile,
            Some(f) => if gen_ok::<File, V>(f, p) { c is Success } else { c is IoError },
        },
    }
}
/// The buffer contract: never a byte outside the buffer, the length only when there is no
/// buffer, nothing when it is too small, else the whole text and a terminator.
pub open spec fn string_result<V>(c: ErrorCode, p: Program, buffer: *mut i8, len: usize, mem: Mem, len1: usize, mem1: Mem) -> bool {
    let t = text::<V>(p);
    mem1.addr == mem.addr && if c is IoError {
        len1 == len && mem1.data == mem.data
    } else if t.contains(0u8) {
        c is NullByteError && len1 == len && mem1.data == mem.data
    } else if null(buffer) {
        c is Success && len1 == t.len() && mem1.data == mem.data
    } else if len < t.len() + 1 {
        c is InsufficientBufferLength && len1 == len && mem1.data == mem.data
    } else {
        c is Success && len1 == len && mem1.data == t.push(0u8) + mem.data.subrange(t.len() as int + 1, mem.data.len() as int)
    }
}
pub open spec fn in_memory_ok<V>(c: ErrorCode, p: Program) -> bool {
    c is IoError ==> exists|w: Vec<u8>| !#[trigger] gen_ok::<Vec<u8>, V>(w, p)
}

//@ fn back::dump_to_file
    ensures file_result::<V>(r, path, *program),
//@ end
//@ fn back::dump_to_string
    requires !null(buffer) ==> old(mem).addr == buffer && old(mem).data.len() == *old(len),
    ensures string_result::<V>(r, *program, buffer, *old(len), *old(mem), *final(len), *final(mem)), in_memory_ok::<V>(r, *program),
//@ sig
pub fn dump_to_string<V>(program: &Program, buffer: *mut i8, len: &mut usize, Tracked(mem): Tracked<&mut Mem>) -> (r: ErrorCode) where V: Visitor<Vec<u8>> + Default
//@ rule Vec::new() => vx_new_bytes()
//@ end
//@ fn back::dump_to_stdout
    ensures if gen_ok::<Stdout, V>(the_stdout(), *program) { r is Success } else { r is IoError },
//@ end
//@ fn back::dump_to_raw
    ensures if gen_ok::<File, V>(fd_file(file), *program) { r is Success } else { r is IoError },
//@ end
//@ fn back::koopa_dump_to_file
    ensures file_result::<KoopaVisitor>(r, path, *program),
//@ end
//@ fn back::koopa_dump_llvm_to_file
    ensures file_result::<LlvmVisitor>(r, path, *program),
//@ end
//@ fn back::koopa_dump_to_string
    requires !null(buffer) ==> old(mem).addr == buffer && old(mem).data.len() == *old(len),
    ensures string_result::<KoopaVisitor>(r, *program, buffer, *old(len), *old(mem), *final(len), *final(mem)), in_memory_ok::<KoopaVisitor>(r, *program),
//@ sig
pub fn koopa_dump_to_string(program: &Program, buffer: *mut i8, len: &mut usize, Tracked(mem): Tracked<&mut Mem>) -> (r: ErrorCode)
//@ end
//@ fn back::koopa_dump_llvm_to_string
    requires !null(buffer) ==> old(mem).addr == buffer && old(mem).data.len() == *old(len),
    ensures string_result::<LlvmVisitor>(r, *program, buffer, *old(len), *old(mem), *final(len), *final(mem)), in_memory_ok::<LlvmVisitor>(r, *program),
//@ sig
pub fn koopa_dump_llvm_to_string(program: &Program, buffer: *mut i8, len: &mut usize, Tracked(mem): Tracked<&mut Mem>) -> (r: ErrorCode)
//@ end
//@ fn back::koopa_dump_to_stdout
    ensures if gen_ok::<Stdout, KoopaVisitor>(the_stdout(), *program) { r is Success } else { r is IoError },
//@ end
//@ fn back::koopa_dump_llvm_to_stdout
    ensures if gen_ok::<Stdout, LlvmVisitor>(the_stdout(), *program) { r is Success } else { r is IoError },
//@ end
//@ fn back::koopa_dump_to_raw
    ensures if gen_ok::<File, KoopaVisitor>(fd_file(file), *program) { r is Success } else { r is IoError },
//@ end
//@ fn back::koopa_dump_llvm_to_raw
    ensures if gen_ok::<File, LlvmVisitor>(fd_file(file), *program) { r is Success } else { r is IoError },
//@ end

/// A parsing entry point stores the program exactly on success.
pub open spec fn parse_result(c: ErrorCode, src: Seq<u8>, p0: *mut Program, p1: *mut Program) -> bool {
    match parsed(src) {
        None => c is InvalidKoopaProgram && p1 == p0,
        Some(p) => c is Success && pointee(p1) == p,
    }
}
//@ fn driver::koopa_parse_from_file
    ensures match c_utf8(path) {
        None => r is InvalidUtf8String && *final(program) == *old(program),
        Some(s) => match opened(s) {
            None => r is InvalidFile && *final(program) == *old(program),
            Some(f) => parse_result(r, content(f), *old(program), *final(program)),
        },
    },
//@ end
//@ fn driver::koopa_parse_from_string
    ensures match c_utf8(s) {
        None => r is InvalidUtf8String && *final(program) == *old(program),
        Some(x) => exists|y: &str| y@ == x && parse_result(r, #[trigger] content(y), *old(program), *final(program)),
    },
//@ end
//@ fn driver::koopa_parse_from_stdin
    ensures parse_result(r, content(the_stdin()), *old(program), *final(program)),
//@ end
//@ fn driver::koopa_parse_from_raw
    ensures parse_result(r, content(fd_file(file)), *old(program), *final(program)),
//@ end
//@ fn raw::ffi::koopa_generate_raw_to_koopa
    ensures match raw_denotes(*raw) {
        Ok(p) => r is Success && pointee(*final(program)) == p,
        Err(e) => r == e && !(r is Success) && *final(program) == *old(program),
    },
//@ end
} // verus!
fn main() {}
