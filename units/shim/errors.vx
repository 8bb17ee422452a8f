// ---- shim/errors: error reporting (front/span.rs); the thread-local state is passed along ----
verus! {
//@ rule Self::STATE.with(|__p| __e) => { let __p = &mut *vx_st; __e }
//@ rule __e.borrow() => __e
//@ rule __e.borrow_mut() => __e
//@ rule _eprint(__e) => vx_eprint()
//@ rule Self::log_raw_error(__a) => Self::log_raw_error(__a, &mut *vx_st)
//@ rule Self::log_raw_warning(__a) => Self::log_raw_warning(__a, &mut *vx_st)
//@ rule Span::log_raw_error(__a) => Span::log_raw_error(vx_args(), &mut *vx_st)
//@ rule Span::log_global() => Span::log_global(&mut *vx_st)
//@ rule Span::error_num() => Span::error_num(&mut *vx_st)
//@ rule Span::warning_num() => Span::warning_num(&mut *vx_st)
//@ rule Span::reset(__f) => Span::reset(__f, &mut *vx_st)
//@ rule msg += __e => vx_append(&mut msg)
//@ rule String::new() => vx_string()
//@ rule __e.into() => vx_err(__e)
#[verifier::external_body]
pub struct Arguments { x: usize }
#[verifier::external_body]
pub struct FileTypePath { x: usize }
#[verifier::external_body]
pub fn vx_args() -> Arguments { unimplemented!() }
/// eprintln!: writes to the standard error
#[verifier::external_body]
pub fn vx_eprint() { unimplemented!() }
#[verifier::external_body]
pub fn vx_string() -> (r: String)
    ensures r@ == Seq::<char>::empty(),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_append(m: &mut String) { unimplemented!() }
#[verifier::external_body]
pub struct PathBuf { x: usize }
//@ item front::span::FileType
//@ item front::span::Error
//@ item front::span::GlobalState
//@ item front::span::Pos #[derive(Clone, Copy)]
//@ item front::span::Span #[derive(Clone, Copy)]
pub enum Color { BrightRed, Yellow, Other }

impl GlobalState {
    /// the counters can still grow (stated assumption: fewer than 2^63 reports)
    pub open spec fn room(self) -> bool { self.err_num < 0x8000_0000_0000_0000 && self.warn_num < 0x8000_0000_0000_0000 }
    pub open spec fn after(self, o: GlobalState) -> bool {
        self.room() && self.err_num >= o.err_num && self.warn_num >= o.warn_num
    }
    /// one more error / warning, everything else the same
    pub open spec fn plus_error(self, o: GlobalState) -> bool { self == (GlobalState { err_num: (o.err_num + 1) as usize, ..o }) }
    pub open spec fn plus_warning(self, o: GlobalState) -> bool { self == (GlobalState { warn_num: (o.warn_num + 1) as usize, ..o }) }
}
//@ fn front::span::Result@From::from as=vx_err
    ensures r == Result::<T, Error>::Err(error),
//@ sig
pub fn vx_err<T>(error: Error) -> (r: Result<T, Error>)
//@ end
impl Error {
//@ fn front::span::Error@Default::default
//@ sig
pub fn default() -> (r: Error)
//@ end
//@ fn front::span::Error::is_fatal
    ensures r == (self is Fatal),
//@ end
}
impl Span {
    /// positions count from line 1, and the start is not after the end
    pub open spec fn ordered(self) -> bool {
        &&& 1 <= self.start.line <= self.end.line < u32::MAX
        &&& self.start.line == self.end.line ==> self.start.col <= self.end.col
    }
    /// formats the source line; only reads the state (proved: c17_spans)
    #[verifier::external_body]
    pub fn print_file_info(&self, file: &FileType, c: Color)
        requires self.ordered(),
    { unimplemented!() }
//@ fn front::span::Span::reset
    ensures final(vx_st).err_num == 0, final(vx_st).warn_num == 0, final(vx_st).file == file,
//@ sig
pub fn reset(file: FileType, vx_st: &mut GlobalState)
//@ end
//@ fn front::span::Span::log_raw_error
    requires old(vx_st).err_num < usize::MAX,
    ensures final(vx_st).plus_error(*old(vx_st)), r is Normal,
//@ sig
pub fn log_raw_error(args: Arguments, vx_st: &mut GlobalState) -> (r: Error)
//@ end
//@ fn front::span::Span::log_raw_fatal_error
    requires old(vx_st).err_num < usize::MAX,
    ensures final(vx_st).plus_error(*old(vx_st)), r is Fatal,
//@ sig
pub fn log_raw_fatal_error(args: Arguments, vx_st: &mut GlobalState) -> (r: Error)
//@ end
//@ fn front::span::Span::log_raw_warning
    requires old(vx_st).warn_num < usize::MAX,
    ensures final(vx_st).plus_warning(*old(vx_st)),
//@ sig
pub fn log_raw_warning(args: Arguments, vx_st: &mut GlobalState)
//@ end
//@ fn front::span::Span::log_error
    requires self.ordered(), old(vx_st).err_num < usize::MAX,
    ensures final(vx_st).plus_error(*old(vx_st)), r is Normal,
//@ sig
pub fn log_error(&self, args: Arguments, vx_st: &mut GlobalState) -> (r: Error)
//@ end
//@ fn front::span::Span::log_fatal_error
    requires self.ordered(), old(vx_st).err_num < usize::MAX,
    ensures final(vx_st).plus_error(*old(vx_st)), r is Fatal,
//@ sig
pub fn log_fatal_error(&self, args: Arguments, vx_st: &mut GlobalState) -> (r: Error)
//@ end
//@ fn front::span::Span::log_warning
    requires self.ordered(), old(vx_st).warn_num < usize::MAX,
    ensures final(vx_st).plus_warning(*old(vx_st)),
//@ sig
pub fn log_warning(&self, args: Arguments, vx_st: &mut GlobalState)
//@ end
//@ fn front::span::Span::log_global
    ensures *final(vx_st) == *old(vx_st),
//@ sig
pub fn log_global(vx_st: &mut GlobalState)
//@ end
//@ fn front::span::Span::error_num
    ensures r == old(vx_st).err_num, *final(vx_st) == *old(vx_st),
//@ sig
pub fn error_num(vx_st: &mut GlobalState) -> (r: usize)
//@ end
//@ fn front::span::Span::warning_num
    ensures r == old(vx_st).warn_num, *final(vx_st) == *old(vx_st),
//@ sig
pub fn warning_num(vx_st: &mut GlobalState) -> (r: usize)
//@ end
}
} // verus!
