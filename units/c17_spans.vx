//@ include shim/base.vx
// ---- C17: printing the place of a report never fails (front/span.rs) ----
//
// For every span whose start is not after its end, every file content and every failure of the
// reader: no arithmetic overflow, no subtraction below zero, no refused call.
verus! {
//@ rule _eprint(__e) => vx_eprint(__e)
//@ rule must_use(__e) => __e
//@ rule format(__e) => vx_format(__e)
//@ rule __e.blue() => vx_style(__e)
//@ rule __e.bright_red() => vx_style(__e)
//@ rule __e.yellow() => vx_style(__e)
//@ rule __e.bold() => vx_style(__e)
//@ rule __e.color(__c) => vx_style_as(__e, __c)
//@ rule __e.repeat(__n) => vx_repeat(__e, __n)
//@ rule (__e as f32).log10().ceil() as usize => vx_digits(__e as usize)
//@ rule String::from_utf8_lossy(__a).replace(__b, __c) => vx_shown(__a, __b, __c)
//@ rule __e.iter().take(__n).filter(|c| **c == b'\t').count() => vx_tabs(&__e, __n)
//@ rule __e.and_then(|r| r.ok()).unwrap_or_default() => vx_line(__e)
//@ rule __e.last() == Some(&b'\r') => vx_ends_with(&__e, 13u8)
//@ rule BufReader::new(__f).split(__c) => vx_lines(__f)
//@ rule File::open(__p) => vx_open(__p)
//@ item front::span::Pos #[derive(Clone, Copy)]
//@ item front::span::Span #[derive(Clone, Copy)]

#[verifier::external_body]
pub struct PathBuf { x: usize }
#[verifier::external_body]
pub struct File { x: usize }
#[verifier::external_body]
pub struct IoError { x: usize }
//@ item front::span::FileType
#[derive(Clone, Copy)]
pub enum Color { BrightRed, Yellow, Other }
#[verifier::external_body]
pub fn vx_open(p: &PathBuf) -> (r: Result<File, IoError>) { unimplemented!() }
/// the lines of a file, whatever it contains now, each of which can fail to be read
#[verifier::external_body]
pub struct VxLines { x: usize }
#[verifier::external_body]
pub fn vx_lines(f: File) -> (r: VxLines) { unimplemented!() }
pub type Line = Option<Result<Vec<u8>, IoError>>;
impl VxLines {
    #[verifier::external_body]
    pub fn nth(&mut self, n: usize) -> (r: Line) { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Line) { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(&mut self, n: usize) -> (r: VxLines) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_line(l: Line) -> (r: Vec<u8>) { unimplemented!() }
#[verifier::external_body]
pub fn vx_ends_with(l: &Vec<u8>, b: u8) -> (r: bool)
    ensures r == (l@.len() > 0 && l@.last() == b),
{ unimplemented!() }
// ---- what is shown: the arguments are evaluated, the terminal is not modelled ----
#[verifier::external_body]
pub fn vx_eprint<T>(t: T) { unimplemented!() }
#[verifier::external_body]
pub fn vx_format<T>(t: T) -> (r: String) { unimplemented!() }
#[verifier::external_body]
pub fn vx_style<T>(t: T) -> (r: T) { unimplemented!() }
#[verifier::external_body]
pub fn vx_style_as<T>(t: T, c: Color) -> (r: T) { unimplemented!() }
/// std refuses a capacity above isize::MAX
#[verifier::external_body]
pub fn vx_repeat(s: &str, n: usize) -> (r: String)
    requires n <= 0x100_0000_0000,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_shown(l: &Vec<u8>, c: char, t: &String) -> (r: String) { unimplemented!() }
/// the number of decimal digits (floating point; at most 20)
#[verifier::external_body]
pub fn vx_digits(n: usize) -> (r: usize)
    ensures r <= 20,
{ unimplemented!() }
pub open spec fn tabs(l: Seq<u8>, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { tabs(l, n - 1) + if n <= l.len() && l[n - 1] == 9u8 { 1int } else { 0 } }
}
#[verifier::external_body]
pub fn vx_tabs(l: &Vec<u8>, n: usize) -> (r: usize)
    ensures r == tabs(l@, n as int),
{ unimplemented!() }
pub proof fn lemma_tabs(l: Seq<u8>, n: int, m: int)
    requires n <= m, 0 <= n,
    ensures 0 <= tabs(l, n) <= tabs(l, m) <= m,
    decreases m - n, n,
{
    if n < m { lemma_tabs(l, n, m - 1); }
    else if n > 0 { lemma_tabs(l, n - 1, n - 1); }
}
pub broadcast proof fn tabs_bounds(l: Seq<u8>, n: int, m: int)
    requires n <= m, 0 <= n,
    ensures 0 <= #[trigger] tabs(l, n) <= #[trigger] tabs(l, m) <= m,
{ lemma_tabs(l, n, m); }

pub broadcast proof fn mul_bounds(a: int, b: int)
    requires 0 <= a <= 0x1_0000_0000, 0 <= b <= 16,
    ensures 0 <= #[trigger] (a * b) <= 0x10_0000_0000,
{ assert(0 <= a * b <= 0x1_0000_0000 * 16) by (nonlinear_arith) requires 0 <= a <= 0x1_0000_0000, 0 <= b <= 16; }
pub broadcast proof fn mul_mono(a: int, c: int, b: int)
    requires 0 <= a <= c, 0 <= b,
    ensures #[trigger] (a * b) <= #[trigger] (c * b),
{ assert(a * b <= c * b) by (nonlinear_arith) requires 0 <= a <= c, 0 <= b; }

pub struct VxRange { pub i: usize, pub end: usize }
impl VxIntoIter for std::ops::Range<usize> {
    type It = VxRange;
    fn vx_into_iter(self) -> (r: VxRange)
        ensures r.i == self.start, r.end == self.end,
    { VxRange { i: self.start, end: self.end } }
}
impl VxRange {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<usize>)
        ensures final(self).end == old(self).end,
            old(self).i < old(self).end ==> r == Some(old(self).i) && final(self).i == old(self).i + 1,
            old(self).i >= old(self).end ==> r is None && final(self).i == old(self).i,
    { unimplemented!() }
}
impl Span {
    /// positions count from line 1, and the start is not after the end
    pub open spec fn ordered(self) -> bool {
        &&& 1 <= self.start.line <= self.end.line < u32::MAX
        &&& self.start.line == self.end.line ==> self.start.col <= self.end.col
    }
//@ item front::span::Span::TAB_WIDTH
//@ fn front::span::Span::print_single_line_info showargs
    requires self.ordered(), self.start.line == self.end.line, self.start.col > 0,
//@ sig
fn print_single_line_info(&self, lines: &mut VxLines, color: Color)
//@ entry
        broadcast use {tabs_bounds, mul_bounds, mul_mono};
//@ end
//@ fn front::span::Span::print_multi_line_info showargs
    requires self.ordered(), self.start.line < self.end.line, self.start.col > 0,
//@ sig
fn print_multi_line_info(&self, lines: &mut VxLines, color: Color)
//@ entry
        broadcast use {tabs_bounds, mul_bounds, mul_mono};
//@ loop 0
    invariant vx_it0.end == mid_lines, 0 <= vx_it0.i <= vx_it0.end, mid_lines <= 4, line_num <= u32::MAX,
    decreases vx_it0.end - vx_it0.i,
//@ loop 1
    invariant vx_it1.end == 2, 0 <= vx_it1.i <= vx_it1.end, line_num <= u32::MAX,
    decreases vx_it1.end - vx_it1.i,
//@ end
//@ fn front::span::Span::print_file_info showargs
    requires self.ordered(),
//@ end
}
//@ fn front::span::line_bytes
//@ sig
fn line_bytes(line: Line) -> (r: Vec<u8>)
//@ end
} // verus!
fn main() {}
