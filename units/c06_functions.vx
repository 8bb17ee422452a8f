//@ include shim/base.vx
//@ include shim/kinds.vx
//@ include shim/accessors.vx
//@ include shim/program.vx
// ---- C06: the constructors of functions return exactly when name and parameters are valid ----
//
// A panic needs `!vx_ok` (none is reachable for valid arguments), a return establishes the rule,
// and what is returned is the function that was asked for.
verus! {
//@ rule Self::check_sanity(__n, __e.iter()) => Self::check_sanity(__n, vx_tys(&__e), Ghost(vx_ok))
//@ rule Self::check_sanity(__n, __e.iter().map(|(_, ty)| ty)) => Self::check_sanity(__n, vx_snd_tys(&__e), Ghost(vx_ok))
//@ rule __e.iter().enumerate().map(|__p| __b).collect() => { let mut vx_v = Vec::new(); for __p in vx_enum(&__e) { vx_v.push(__b); } vx_v }
//@ rule __e.into_iter().enumerate().map(|__p| __b).unzip() => { let mut vx_a = Vec::new(); let mut vx_b = Vec::new(); for __p in vx_into_enum(__e) { let vx_x = __b; vx_a.push(vx_x.0); vx_b.push(vx_x.1); } (vx_a, vx_b) }
//@ rule __e.set_value_name(__v, __n) => __e.set_value_name(__v, __n, Ghost(vx_ok))
//@ rule __e.set_name(__n) => __e.set_name(__n, Ghost(vx_ok))
//@ rule __e.expect(__m) => vx_expect_refuse(__e, Ghost(vx_ok))
//@ rule __e.starts_with('%') => vx_starts_with(__e, '%')
//@ rule __e.starts_with('@') => vx_starts_with(__e, '@')
//@ rule __e.len() => vx_str_len(__e)
//@ rule __e.as_ref().is_none_or(|__p| __b) => match &__e { Some(__p) => __b, None => true }

/// A refusal: it must not be reachable when the documented rule holds.
#[verifier::external_body]
pub fn vx_refuse(Ghost(vx_ok): Ghost<bool>) -> !
    requires !vx_ok,
    ensures false,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_expect_refuse<T>(o: Option<T>, Ghost(vx_ok): Ghost<bool>) -> (r: T)
    requires o is None ==> !vx_ok,
    ensures o == Some(r),
{ unimplemented!() }

// ---- iterators of std ----
pub struct VxEnum<'a, T> { pub s: &'a [T], pub i: usize }
#[verifier::external_body]
pub fn vx_enum<'a, T>(s: &'a Vec<T>) -> (r: VxEnum<'a, T>)
    ensures r.s@ == s@, r.i == 0,
{ unimplemented!() }
impl<'a, T> VxEnum<'a, T> {
    pub fn vx_into_iter(self) -> (r: Self)
        ensures r == self,
    { self }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, &'a T)>)
        ensures
            final(self).s == old(self).s,
            old(self).i < old(self).s@.len() ==> r == Some((old(self).i, &old(self).s@[old(self).i as int])) && final(self).i == old(self).i + 1,
            old(self).i >= old(self).s@.len() ==> r is None && final(self).i == old(self).i,
    { unimplemented!() }
}
#[verifier::reject_recursive_types(T)]
pub struct VxIntoEnum<T> { pub s: Ghost<Seq<T>>, pub i: usize, pub x: std::marker::PhantomData<T> }
#[verifier::external_body]
pub fn vx_into_enum<T>(s: Vec<T>) -> (r: VxIntoEnum<T>)
    ensures r.s@ == s@, r.i == 0,
{ unimplemented!() }
impl<T> VxIntoEnum<T> {
    pub fn vx_into_iter(self) -> (r: Self)
        ensures r == self,
    { self }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, T)>)
        ensures
            final(self).s == old(self).s,
            old(self).i < old(self).s@.len() ==> r == Some((old(self).i, old(self).s@[old(self).i as int])) && final(self).i == old(self).i + 1,
            old(self).i >= old(self).s@.len() ==> r is None && final(self).i == old(self).i,
    { unimplemented!() }
}
/// the types of a list of parameters, one after the other
pub struct VxTys<'a> { pub s: Ghost<Seq<Type>>, pub i: usize, pub x: std::marker::PhantomData<&'a Type> }
#[verifier::external_body]
pub fn vx_tys<'a>(s: &'a Vec<Type>) -> (r: VxTys<'a>)
    ensures r.s@ == s@, r.i == 0,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_snd_tys<'a>(s: &'a Vec<(Option<String>, Type)>) -> (r: VxTys<'a>)
    ensures r.s@ == snds(s@), r.i == 0,
{ unimplemented!() }
impl<'a> VxTys<'a> {
    pub fn vx_into_iter(self) -> (r: Self)
        ensures r == self,
    { self }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a Type>)
        ensures
            final(self).s == old(self).s,
            old(self).i < old(self).s@.len() ==> r == Some(&old(self).s@[old(self).i as int]) && final(self).i == old(self).i + 1,
            old(self).i >= old(self).s@.len() ==> r is None && final(self).i == old(self).i,
    { unimplemented!() }
}
pub open spec fn snds(ps: Seq<(Option<String>, Type)>) -> Seq<Type> { ps.map_values(|p: (Option<String>, Type)| p.1) }
pub open spec fn unnamed(tys: Seq<Type>) -> Seq<(Option<String>, Type)> { tys.map_values(|t: Type| (None::<String>, t)) }

// ---- strings ----
#[verifier::external_body]
pub fn vx_starts_with(s: &String, c: char) -> (r: bool)
    ensures r == (s@.len() > 0 && s@[0] == c),
{ unimplemented!() }
/// byte length: at least the number of characters
pub uninterp spec fn byte_len(s: Seq<char>) -> int;
#[verifier::external_body]
pub fn vx_str_len(s: &String) -> (r: usize)
    ensures r == byte_len(s@), r >= s@.len(), (s@.len() == 0) == (r == 0), s@.len() == 1 && (s@[0] == '%' || s@[0] == '@') ==> r == 1,
{ unimplemented!() }
/// `%` or `@` followed by at least one more character
pub open spec fn sym_ok(s: Seq<char>) -> bool { s.len() > 1 && (s[0] == '%' || s[0] == '@') }
pub open spec fn name_ok(n: Option<String>) -> bool { match n { None => true, Some(s) => sym_ok(s@) } }

// ---- types: C05 ----
pub uninterp spec fn is_unit_ty(t: Type) -> bool;
pub uninterp spec fn fun_ty(ps: Seq<Type>, ret: Type) -> Type;
impl Type {
    #[verifier::external_body]
    pub fn get_function(params: Vec<Type>, ret: Type) -> (r: Type)
        ensures r == fun_ty(params@, ret), !is_unit_ty(r),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_unit(&self) -> (r: bool)
        ensures r == is_unit_ty(*self),
    { unimplemented!() }
}
// ---- layout: C03 ----
impl Layout {
    pub uninterp spec fn empty(&self) -> bool;
    #[verifier::external_body]
    pub fn new() -> (r: Layout)
        ensures r.empty(),
    { unimplemented!() }
}

// ---- values ----
pub open spec fn fresh(d: ValueData, ty: Type) -> bool { d.ty == ty && d.name is None && d.used_by@ == Set::<Value>::empty() }
impl ValueData {
//@ fn ir::entities::ValueData::new
    ensures r.kind == kind, fresh(r, ty),
//@ end
//@ fn ir::entities::ValueData::set_name panics=refuse
    requires !name_ok(name) ==> !vx_ok,
    ensures name_ok(name), *final(self) == (ValueData { name: name, ..*old(self) }),
//@ sig
pub fn set_name(&mut self, name: Option<String>, Ghost(vx_ok): Ghost<bool>)
//@ end
}
impl FuncArgRef {
//@ fn ir::values::FuncArgRef::new_data
    ensures r.kind == ValueKind::FuncArgRef(FuncArgRef { index: index }), fresh(r, ty),
//@ end
}
impl DataFlowGraph {
    /// proved: C01, C15 (the data uses nothing, so it is recorded as it is given)
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r.values@ == Map::<Value, ValueData>::empty(), r.bbs@ == Map::<BasicBlock, BasicBlockData>::empty(),
    { unimplemented!() }
    /// proved: C01, C15 (the data uses nothing, so it is recorded as it is given)
    #[verifier::external_body]
    pub fn new_value_data(&mut self, data: ValueData) -> (r: Value)
        requires operands(data.kind).len() == 0, data.used_by@ == Set::<Value>::empty(),
        ensures
            !old(self).values@.contains_key(r),
            final(self).values@ == old(self).values@.insert(r, data),
            final(self).bbs == old(self).bbs, final(self).globals == old(self).globals, final(self).func_tys == old(self).func_tys,
    { unimplemented!() }
//@ fn ir::dfg::DataFlowGraph::set_value_name panics=refuse
    requires !name_ok(name) ==> !vx_ok, old(self).values@.contains_key(value),
    ensures
        name_ok(name),
        final(self).values@ == old(self).values@.insert(value, ValueData { name: name, ..old(self).values@[value] }),
        final(self).bbs == old(self).bbs, final(self).globals == old(self).globals, final(self).func_tys == old(self).func_tys,
//@ sig
pub fn set_value_name(&mut self, value: Value, name: Option<String>, Ghost(vx_ok): Ghost<bool>)
//@ end
}

// ---- functions ----
pub open spec fn tys_ok(tys: Seq<Type>) -> bool {
    forall|k: int| 0 <= k < tys.len() ==> !is_unit_ty(#[trigger] tys[k])
}
pub open spec fn params_ok(ps: Seq<(Option<String>, Type)>) -> bool {
    forall|k: int| 0 <= k < ps.len() ==> name_ok((#[trigger] ps[k]).0) && !is_unit_ty(ps[k].1)
}
/// the values are the parameters `ps`, in order
pub open spec fn params_made(d: DataFlowGraph, vs: Seq<Value>, ps: Seq<(Option<String>, Type)>) -> bool {
    &&& vs.len() == ps.len()
    &&& vs.no_duplicates()
    &&& forall|v: Value| #[trigger] d.values@.contains_key(v) == vs.contains(v)
    &&& forall|k: int| 0 <= k < vs.len() ==> is_param(d.values@[#[trigger] vs[k]], k, ps[k])
    &&& d.bbs@ == Map::<BasicBlock, BasicBlockData>::empty()
}
pub open spec fn is_param(d: ValueData, k: int, p: (Option<String>, Type)) -> bool {
    d.kind == ValueKind::FuncArgRef(FuncArgRef { index: k as usize }) && d.ty == p.1 && d.name == p.0 && d.used_by@ == Set::<Value>::empty()
}
/// the function that was asked for
pub open spec fn made(f: FunctionData, name: Seq<char>, tys: Seq<Type>, ret: Type, ps: Seq<(Option<String>, Type)>) -> bool {
    f.ty == fun_ty(tys, ret) && f.name@ == name && f.layout.empty() && params_made(f.dfg, f.params@, ps)
}
pub proof fn lemma_step(d0: DataFlowGraph, d1: DataFlowGraph, vs: Seq<Value>, ps: Seq<(Option<String>, Type)>, k: int, v: Value)
    requires
        0 <= k < ps.len(), params_made(d0, vs, ps.take(k)), !d0.values@.contains_key(v),
        d1.values@.contains_key(v), is_param(d1.values@[v], k, ps[k]),
        forall|x: Value| #[trigger] d1.values@.contains_key(x) == (d0.values@.contains_key(x) || x == v),
        forall|x: Value| #[trigger] d0.values@.contains_key(x) ==> d1.values@[x] == d0.values@[x],
        d1.bbs == d0.bbs,
    ensures params_made(d1, vs.push(v), ps.take(k + 1)),
{
    let vs2 = vs.push(v); let ps2 = ps.take(k + 1);
    assert(!vs.contains(v)) by { assert(d0.values@.contains_key(v) == vs.contains(v)); }
    assert forall|x: Value| #[trigger] d1.values@.contains_key(x) == vs2.contains(x) by {
        assert(d0.values@.contains_key(x) == vs.contains(x));
        if vs.contains(x) { let j = vs.index_of(x); assert(vs2[j] == x); }
        assert(vs2[k] == v);
        if vs2.contains(x) { let j = vs2.index_of(x); if j < k { assert(vs[j] == x); } }
    }
    assert forall|j: int| 0 <= j < vs2.len() implies is_param(d1.values@[#[trigger] vs2[j]], j, ps2[j]) by {
        if j < k { assert(vs.contains(vs[j])); assert(d0.values@.contains_key(vs[j])); assert(ps.take(k)[j] == ps[j]); }
    }
}

impl FunctionData {
//@ fn ir::entities::FunctionData::check_sanity panics=refuse
    requires !(sym_ok(name@) && tys_ok(params.s@)) ==> !vx_ok, params.i == 0,
    ensures sym_ok(name@), tys_ok(params.s@),
//@ sig
fn check_sanity<'a>(name: &String, params: VxTys<'a>, Ghost(vx_ok): Ghost<bool>)
//@ rule __e.all(|__p| __b) => { let mut vx_all = true; for __p in __e { if !(__b) { vx_all = false; break; } } vx_all }
//@ entry
        let ghost tys = params.s@;
//@ loop 0
    invariant_except_break
        vx_all,
    invariant
        vx_it0.s@ == tys, tys == params.s@, 0 <= vx_it0.i <= tys.len(),
        !(sym_ok(name@) && tys_ok(tys)) ==> !vx_ok,
        vx_all ==> forall|k: int| 0 <= k < vx_it0.i ==> !is_unit_ty(#[trigger] tys[k]),
        !vx_all ==> !vx_ok,
    ensures
        vx_all ==> forall|k: int| 0 <= k < tys.len() ==> !is_unit_ty(#[trigger] tys[k]),
    decreases tys.len() - vx_it0.i,
//@ end
//@ fn ir::entities::FunctionData::new panics=refuse
    ensures sym_ok(name@), tys_ok(params_ty@), made(r, name@, params_ty@, ret_ty, unnamed(params_ty@)),
//@ entry
        let ghost vx_ok = sym_ok(name@) && tys_ok(params_ty@);
        let ghost tys = params_ty@;
        let ghost ps = unnamed(tys);
//@ beforeloop 0
        proof { assert(ps.take(0) =~= Seq::empty()); }
//@ loop 0
    invariant
        vx_it0.s@ == tys, 0 <= vx_it0.i <= tys.len(), ps == unnamed(tys),
        params_made(dfg, vx_v@, ps.take(vx_it0.i as int)),
    ensures
        params_made(dfg, vx_v@, ps.take(tys.len() as int)),
    decreases tys.len() - vx_it0.i,
//@ loopstart 0
        let ghost d0 = dfg; let ghost v0 = vx_v@; let ghost i0 = vx_it0.i;
//@ bodyend 0
        proof { assert(vx_v@ =~= v0.push(vx_v@.last())); lemma_step(d0, dfg, v0, ps, i0 as int, vx_v@.last()); }
//@ afterloop 0
        proof { assert(ps.take(tys.len() as int) =~= ps); }
//@ end
//@ fn ir::entities::FunctionData::with_param_names panics=refuse
    ensures sym_ok(name@), params_ok(params@), made(r, name@, snds(params@), ret_ty, params@),
//@ entry
        let ghost vx_ok = sym_ok(name@) && params_ok(params@);
        let ghost ps = params@;
        proof { assert(params_ok(ps) ==> tys_ok(snds(ps))); }
//@ beforeloop 0
        proof { assert(ps.take(0) =~= Seq::empty()); assert(snds(ps).take(0) =~= Seq::empty()); }
//@ loop 0
    invariant
        vx_it0.s@ == ps, 0 <= vx_it0.i <= ps.len(), vx_ok == (sym_ok(name@) && params_ok(ps)),
        params_made(dfg, vx_a@, ps.take(vx_it0.i as int)),
        vx_b@ =~= snds(ps).take(vx_it0.i as int),
        forall|k: int| 0 <= k < vx_it0.i ==> name_ok((#[trigger] ps[k]).0),
    ensures
        params_made(dfg, vx_a@, ps.take(ps.len() as int)),
        vx_b@ =~= snds(ps).take(ps.len() as int),
        forall|k: int| 0 <= k < ps.len() ==> name_ok((#[trigger] ps[k]).0),
    decreases ps.len() - vx_it0.i,
//@ loopstart 0
        let ghost d0 = dfg; let ghost v0 = vx_a@; let ghost i0 = vx_it0.i;
//@ bodyend 0
        proof { assert(vx_a@ =~= v0.push(vx_a@.last())); assert(snds(ps)[i0 as int] == ps[i0 as int].1); lemma_step(d0, dfg, v0, ps, i0 as int, vx_a@.last()); }
//@ afterloop 0
        proof { assert(ps.take(ps.len() as int) =~= ps); assert(snds(ps).take(ps.len() as int) =~= snds(ps));
            assert forall|k: int| 0 <= k < ps.len() implies !is_unit_ty((#[trigger] ps[k]).1) by { assert(snds(ps)[k] == ps[k].1); } }
//@ end
//@ fn ir::entities::FunctionData::new_decl panics=refuse
    ensures sym_ok(name@), tys_ok(params_ty@), made(r, name@, params_ty@, ret_ty, Seq::empty()),
//@ entry
        let ghost vx_ok = sym_ok(name@) && tys_ok(params_ty@);
//@ end
}

// ---- adding them to a program ----
pub open spec fn no_uses(d: DataFlowGraph) -> bool {
    forall|v: Value| #[trigger] d.values@.contains_key(v) ==> operands(d.values@[v].kind).len() == 0
}
pub open spec fn same_func(a: FunctionData, b: FunctionData) -> bool {
    a.ty == b.ty && a.name == b.name && a.params == b.params && a.layout == b.layout && a.dfg.values == b.dfg.values && a.dfg.bbs == b.dfg.bbs
}
pub open spec fn added(p0: Program, p1: Program, r: Function, d: FunctionData) -> bool {
    &&& !p0.funcs@.contains_key(r)
    &&& p1.funcs@ == p0.funcs@.insert(r, p1.funcs@[r])
    &&& same_func(p1.funcs@[r], d)
    &&& p1.func_tys@ == p0.func_tys@.insert(r, d.ty)
    &&& p1.func_layout@ == p0.func_layout@.push(r)
    &&& p1.values == p0.values && p1.inst_layout == p0.inst_layout
}
/// the program got exactly this function, at the end of its list
pub open spec fn got(p0: Program, p1: Program, r: Function, name: Seq<char>, tys: Seq<Type>, ret: Type, ps: Seq<(Option<String>, Type)>) -> bool {
    exists|d: FunctionData| #[trigger] added(p0, p1, r, d) && made(d, name, tys, ret, ps)
}
impl Program {
    /// proved: C01, C15 (the function uses no global value, so nothing else changes)
    #[verifier::external_body]
    pub fn new_func(&mut self, data: FunctionData) -> (r: Function)
        requires no_uses(data.dfg),
        ensures added(*old(self), *final(self), r, data),
    { unimplemented!() }
//@ fn ir::entities::Program::new_func_def panics=refuse
    ensures sym_ok(name@), tys_ok(params_ty@), got(*old(self), *final(self), r, name@, params_ty@, ret_ty, unnamed(params_ty@)),
//@ end
//@ fn ir::entities::Program::new_func_def_with_param_names panics=refuse
    ensures sym_ok(name@), params_ok(params@), got(*old(self), *final(self), r, name@, snds(params@), ret_ty, params@),
//@ end
//@ fn ir::entities::Program::new_func_decl panics=refuse
    ensures sym_ok(name@), tys_ok(params_ty@), got(*old(self), *final(self), r, name@, params_ty@, ret_ty, Seq::empty()),
//@ end
}
} // verus!
fn main() {}
