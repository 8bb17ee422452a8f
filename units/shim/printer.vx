// ---- shim/printer: what a printer sees ----
use std::rc::Rc;
use std::num::NonZeroUsize;
verus! {
//@ type Result => Result<(), IoError>
//@ type Result<__T> => Result<__T, IoError>
//@ rule __e.iter().enumerate() => vx_enumerate(__e)
#[verifier::external_body]
pub struct IoError { x: usize }

// ---- text ----
/// decimal digits of a number, as Display prints it
pub uninterp spec fn dec(n: int) -> Seq<char>;
pub trait VxShow { spec fn show(&self) -> Seq<char>; }
impl VxShow for usize { open spec fn show(&self) -> Seq<char> { dec(*self as int) } }
impl VxShow for i32 { open spec fn show(&self) -> Seq<char> { dec(*self as int) } }
impl VxShow for Rc<String> { open spec fn show(&self) -> Seq<char> { self@ } }
impl<T: VxShow + ?Sized> VxShow for &T { open spec fn show(&self) -> Seq<char> { (**self).show() } }
/// what a writer has received so far
pub trait Write: Sized {
    spec fn out(&self) -> Seq<char>;
    fn vx_ch(&mut self, c: char) ensures final(self).out() == old(self).out().push(c);
    fn vx_put<T: VxShow>(&mut self, t: &T) ensures final(self).out() == old(self).out() + t.show();
    fn vx_text(&mut self, t: &str) ensures final(self).out() == old(self).out() + t@;
    /// the end of a write, which may have failed: then nothing is known of the text
    fn vx_done(&mut self) -> (r: Result<(), IoError>) ensures r is Ok ==> final(self).out() == old(self).out();
}

pub uninterp spec fn show_type(t: Type) -> Seq<char>;
impl VxShow for Type { open spec fn show(&self) -> Seq<char> { show_type(*self) } }

// ---- `.iter().enumerate()` ----
pub trait VxSeq: Sized {
    type Item;
    spec fn items(self) -> Seq<Self::Item>;
}
impl<'a, T> VxSeq for &'a Vec<T> { type Item = &'a T; open spec fn items(self) -> Seq<&'a T> { self@.map_values(|x: T| &x) } }
impl<'a, T> VxSeq for &'a [T] { type Item = &'a T; open spec fn items(self) -> Seq<&'a T> { self@.map_values(|x: T| &x) } }
impl<'a> VxSeq for &'a BasicBlockList {
    type Item = (&'a BasicBlock, &'a BasicBlockNode);
    uninterp spec fn items(self) -> Seq<(&'a BasicBlock, &'a BasicBlockNode)>;
}
#[verifier::external_body]
pub proof fn axiom_bb_items(l: &BasicBlockList)
    ensures
        l.items().len() == l.order().len(),
        forall|i: int| 0 <= i < l.items().len() ==> *(#[trigger] l.items()[i]).0 == l.order()[i] && l.items()[i].1.list() == l.body()[l.order()[i]],
{}
impl<'a, T> VxSeq for &'a HashSet<T> { type Item = &'a T; open spec fn items(self) -> Seq<&'a T> { set_order(self@).map_values(|x: T| &x) } }
#[verifier::reject_recursive_types(S)]
pub struct VxEnumerate<S: VxSeq> { pub s: S, pub i: usize }
#[verifier::external_body]
pub fn vx_enumerate<S: VxSeq>(s: S) -> (r: VxEnumerate<S>) ensures r.s == s, r.i == 0, { unimplemented!() }
impl<S: VxSeq> VxEnumerate<S> {
    pub fn vx_into_iter(self) -> (r: Self) ensures r == self, { self }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, S::Item)>)
        ensures
            final(self).s == old(self).s,
            old(self).i < old(self).s.items().len() ==> r == Some((old(self).i, old(self).s.items()[old(self).i as int])) && final(self).i == old(self).i + 1,
            old(self).i >= old(self).s.items().len() ==> r is None && final(self).i == old(self).i,
    { unimplemented!() }
}

// ---- names (C04): stable within one run, and within one function for what is local to it ----
pub uninterp spec fn gname(run: int, a: Addr) -> Seq<char>;
pub uninterp spec fn lname(run: int, scope: nat, a: Addr) -> Seq<char>;
/// the `k`-th temporary of a run
pub uninterp spec fn tname(run: int, k: nat) -> Seq<char>;
//@ item back::generator::Prefix
#[verifier::external_body]
pub struct NameManager { x: usize }
impl NameManager {
    /// the run whose names these are; the function being printed, if any
    pub uninterp spec fn run(&self) -> int;
    pub uninterp spec fn scope(&self) -> nat;
    pub uninterp spec fn inside(&self) -> bool;
    pub uninterp spec fn prefix(&self) -> Prefix;
    pub uninterp spec fn unified(&self) -> bool;
    /// functions and global values named so far
    pub uninterp spec fn named(&self) -> Set<Addr>;
    /// temporaries handed out so far
    pub uninterp spec fn temps(&self) -> nat;
    pub open spec fn same(&self, o: NameManager) -> bool {
        self.run() == o.run() && self.scope() == o.scope() && self.inside() == o.inside() && o.named().subset_of(self.named())
            && self.prefix() == o.prefix() && self.unified() == o.unified()
    }
    /// names of this kind come out in the form the language wants; `prefix_fits` is the unit's
    pub open spec fn fits(&self, global: bool) -> bool { prefix_fits(self.prefix(), global, self.unified()) }
    #[verifier::external_body]
    pub fn set_prefix(&mut self, prefix: Prefix)
        ensures
            final(self).run() == old(self).run(), final(self).scope() == old(self).scope(), final(self).inside() == old(self).inside(), final(self).named() == old(self).named(),
            final(self).prefix() == prefix, final(self).unified() == old(self).unified(), final(self).temps() == old(self).temps(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_unified(&mut self, unified: bool)
        ensures
            final(self).run() == old(self).run(), final(self).scope() == old(self).scope(), final(self).inside() == old(self).inside(), final(self).named() == old(self).named(),
            final(self).prefix() == old(self).prefix(), final(self).unified() == unified, final(self).temps() == old(self).temps(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn enter_func_scope(&mut self)
        requires !old(self).inside(),
        ensures
            final(self).run() == old(self).run(), final(self).scope() == old(self).scope() + 1, final(self).inside(), final(self).named() == old(self).named(),
            final(self).prefix() == old(self).prefix(), final(self).unified() == old(self).unified(), final(self).temps() == old(self).temps(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn exit_func_scope(&mut self)
        requires old(self).inside(),
        ensures
            final(self).run() == old(self).run(), final(self).scope() == old(self).scope(), !final(self).inside(), final(self).named() == old(self).named(),
            final(self).prefix() == old(self).prefix(), final(self).unified() == old(self).unified(), final(self).temps() == old(self).temps(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn func_name(&mut self, func: &FunctionData) -> (r: Rc<String>)
        requires old(self).named().contains(func.addr()) || old(self).fits(true),
        ensures
            r@ == gname(old(self).run(), func.addr()), final(self).same(*old(self)), final(self).temps() == old(self).temps(),
            final(self).named() == old(self).named().insert(func.addr()),
    { unimplemented!() }
    /// A name starts with its prefix.
    #[verifier::external_body]
    pub fn bb_name(&mut self, bb: &BasicBlockData) -> (r: Rc<String>)
        requires old(self).inside(), old(self).fits(false),
        ensures
            r@ == lname(old(self).run(), old(self).scope(), bb.addr()), final(self).same(*old(self)), final(self).temps() == old(self).temps(),
            old(self).prefix() is Custom ==> r@.len() > 0 && r@[0] == '%',
    { unimplemented!() }
    #[verifier::external_body]
    pub fn value_name(&mut self, value: &ValueData) -> (r: Rc<String>)
        requires
            !constant(value.what()),
            if value.what() is GlobalAlloc { old(self).named().contains(value.addr()) || old(self).fits(true) } else { old(self).inside() && old(self).fits(false) },
        ensures
            r@ == if value.what() is GlobalAlloc { gname(old(self).run(), value.addr()) } else { lname(old(self).run(), old(self).scope(), value.addr()) },
            final(self).same(*old(self)), final(self).temps() == old(self).temps(),
            final(self).named() == if value.what() is GlobalAlloc { old(self).named().insert(value.addr()) } else { old(self).named() },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn temp_value_name(&mut self) -> (r: Rc<String>)
        requires old(self).fits(false),
        ensures r@ == tname(old(self).run(), old(self).temps()), final(self).same(*old(self)), final(self).temps() == old(self).temps() + 1, final(self).named() == old(self).named(),
    { unimplemented!() }
}

/// the context of a piece of text
pub ghost struct Cx { pub p: Program, pub f: FunctionData, pub run: int, pub scope: nat }
impl Cx {
    pub open spec fn name(self, v: ValueData) -> Seq<char> {
        if v.what() is GlobalAlloc { gname(self.run, v.addr()) } else { lname(self.run, self.scope, v.addr()) }
    }
    pub open spec fn get(self, v: Value) -> ValueData { if global(v) { self.p.gvals()[v] } else { self.f.vals()[v] } }
    /// `v` can be printed as an operand
    pub open spec fn operand(self, v: Value) -> bool {
        if global(v) { self.p.gvals().contains_key(v) && self.get(v).what() is GlobalAlloc }
        else { self.f.vals().contains_key(v) && !(self.get(v).what() is GlobalAlloc) }
    }
    pub open spec fn target(self, b: BasicBlock) -> bool { self.f.bbs().contains_key(b) }
    pub open spec fn local(self, v: Value) -> bool {
        !global(v) && self.f.vals().contains_key(v) && !constant(self.f.vals()[v].what()) && !(self.f.vals()[v].what() is GlobalAlloc)
    }
}
/// constants refer to constants
pub open spec fn consts_ok(m: Map<Value, ValueData>) -> bool {
    forall|v: Value| #[trigger] m.contains_key(v) ==> elems_ok(m[v], m)
}
pub open spec fn elems_ok(d: ValueData, m: Map<Value, ValueData>) -> bool {
    d.what() is Aggregate ==> forall|i: int| 0 <= i < operands(d.what()).len() ==> {
        &&& m.contains_key(#[trigger] operands(d.what())[i]) && m[operands(d.what())[i]].depth() < d.depth()
        &&& constant(m[operands(d.what())[i]].what())
    }
}
} // verus!
