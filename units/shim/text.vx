// ---- shim/text: formatted output ----
verus! {
/// decimal digits of a number, as Display prints it
pub uninterp spec fn dec(n: int) -> Seq<char>;
#[verifier::external_body]
pub struct FmtError { x: usize }
/// what a writer has received so far
pub struct Formatter { pub ghost out: Seq<char> }
pub trait VxShow {
    /// the text Display prints
    spec fn show(&self) -> Seq<char>;
}
impl Formatter {
    #[verifier::external_body]
    pub fn vx_ch(&mut self, c: char)
        ensures final(self).out == old(self).out.push(c),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_put<T: VxShow>(&mut self, t: &T)
        ensures final(self).out == old(self).out + t.show(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_done(&mut self) -> (r: Result<(), FmtError>)
        ensures r is Ok, final(self).out == old(self).out,
    { unimplemented!() }
}
impl VxShow for usize { open spec fn show(&self) -> Seq<char> { dec(*self as int) } }
impl VxShow for i32 { open spec fn show(&self) -> Seq<char> { dec(*self as int) } }
impl VxShow for u32 { open spec fn show(&self) -> Seq<char> { dec(*self as int) } }
impl<T: VxShow> VxShow for &T { open spec fn show(&self) -> Seq<char> { (**self).show() } }
} // verus!
