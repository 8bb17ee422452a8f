//@ include shim/base.vx
//@ path BinaryOp => BinaryOp
//@ include shim/errors.vx
//@ include shim/ast.vx
//@ include shim/smap.vx
//@ include shim/progbuild.vx
// ---- C09: the builder of programs from syntax trees ----
// Either an error is reported, or what was built is what the tree denotes; an error is reported
// only when a rule is broken; no constructor refuses and nothing panics on any well-formed tree.
verus! {
//@ type ValueResult => Result<Value, Error>
//@ rule __e? => match __e { Ok(vx_x) => vx_x, Err(vx_e) => return Err(vx_e) }
//@ rule __s.log_error(__a) => vx_log(&__s, &mut *vx_st)
//@ rule __s.log_warning(__a) => vx_warn(&__s, &mut *vx_st)
//@ rule __e.as_ref().map_or_else(Type::get_unit, __g) => match &__e { Some(vx_a) => __g(vx_a), None => Type::get_unit() }
//@ rule __e.as_ref().map_or(__d, __g) => match &__e { Some(vx_a) => __g(vx_a), None => __d }
//@ rule __e.iter().map(|__p| __b).collect::<Result<_, _>>() => { let mut vx_v = Vec::new(); let mut vx_r = None; for __p in (&__e) { match __b { Ok(vx_x) => { vx_v.push(vx_x); } Err(vx_e) => { vx_r = Some(vx_e); break; } } } match vx_r { None => Ok(vx_v), Some(vx_e) => Err(vx_e) } }
//@ rule __e.iter().map(|__p| __b).collect() => { let mut vx_v = Vec::new(); for __p in (&__e) { vx_v.push(__b); } vx_v }
//@ rule __e.iter().map(__g).collect() => { let mut vx_v = Vec::new(); for vx_a in (&__e) { vx_v.push(__g(vx_a)); } vx_v }
//@ rule __a.iter().zip(__b.into_iter()) => vx_zip_own(&__a, __b)
//@ rule __a.iter().zip(__b) => vx_zip(&__a, &__b)
//@ rule __e.or_else(|| __f) => match __e { Some(vx_x) => Some(vx_x), None => __f }
//@ rule __e.ok_or_else(|| __f) => match __e { Some(vx_x) => Ok(vx_x), None => Err(__f) }
//@ rule __e.copied() => match __e { Some(vx_x) => Some(*vx_x), None => None }
//@ rule __e.map(|__p| __b).transpose() => match __e { Some(__p) => match __b { Ok(vx_x) => Ok(Some(vx_x)), Err(vx_e) => Err(vx_e) }, None => Ok(None) }
//@ rule __e.iter().find_map(|__p| __b) => { let mut vx_r = None; for __p in (&__e) { let vx_y = __b; if vx_y.is_some() { vx_r = vx_y; break; } } vx_r }
//@ rule __c.then(|| __e) => if __c { Some(__e) } else { None }
//@ rule __e.first().unwrap() => vx_first(&__e)
//@ rule __e.last().unwrap() => vx_last(&__e)
//@ rule __e[0] => *vx_first(&__e)
//@ rule __e[__i] => *__e.vx_at(&__i)
//@ rule __s.extend(__m.keys().cloned()) => __s.vx_extend_keys(&__m)
//@ rule __e.chars().all(|__p| __b) => { let mut vx_all = true; for __p in vx_chars(&__e) { if !(__b) { vx_all = false; break; } } vx_all }
//@ rule __e.is_numeric() => vx_numeric(__e)
//@ rule Self::default() => vx_builder()
//@ rule __s.generate_global_init(__a, __b) => __s.generate_global_init(__a, __b, &mut *vx_st)
//@ rule __s.generate_local_init(__a, __b, __c) => __s.generate_local_init(__a, __b, __c, &mut *vx_st)
//@ rule __s.generate_value(__a, __b, __c, __d) => __s.generate_value(__a, __b, __c, __d, &mut *vx_st)
//@ rule __s.generate_symbol(__a, __b, __c) => __s.generate_symbol(__a, __b, __c, Ghost(func), &mut *vx_st)
//@ rule __s.generate_bb(__a, __b) => __s.generate_bb(__a, __b, &mut *vx_st)
//@ rule __s.generate_args(__a, __b, __c, __d, __e) => __s.generate_args(__a, __b, __c, __d, __e, &mut *vx_st)
//@ rule __s.generate_stmt(__a, __b, __c, __d) => __s.generate_stmt(__a, __b, __c, __d, &mut *vx_st)
//@ rule __s.generate_inst(__a, __b, __c) => __s.generate_inst(__a, __b, __c, &mut *vx_st)
//@ rule __s.generate_load(__a, __b, __c, __d) => __s.generate_load(__a, __b, __c, __d, &mut *vx_st)
//@ rule __s.generate_store(__a, __b, __c, __d) => __s.generate_store(__a, __b, __c, __d, &mut *vx_st)
//@ rule __s.generate_get_pointer(__a, __b, __c, __d) => __s.generate_get_pointer(__a, __b, __c, __d, &mut *vx_st)
//@ rule __s.generate_get_element_pointer(__a, __b, __c, __d) => __s.generate_get_element_pointer(__a, __b, __c, __d, &mut *vx_st)
//@ rule __s.generate_binary_expr(__a, __b, __c) => __s.generate_binary_expr(__a, __b, __c, &mut *vx_st)
//@ rule __s.generate_branch(__a, __b, __c, __d) => __s.generate_branch(__a, __b, __c, __d, &mut *vx_st)
//@ rule __s.generate_jump(__a, __b, __c, __d) => __s.generate_jump(__a, __b, __c, __d, &mut *vx_st)
//@ rule __s.generate_fun_call(__a, __b, __c, __d) => __s.generate_fun_call(__a, __b, __c, __d, &mut *vx_st)
//@ rule __s.generate_return(__a, __b, __c, __d, __e) => __s.generate_return(__a, __b, __c, __d, __e, &mut *vx_st)
//@ rule __s.build_on_global_def(__a, __b) => __s.build_on_global_def(__a, __b, &mut *vx_st)
//@ rule __s.build_on_fun_def(__a, __b) => __s.build_on_fun_def(__a, __b, &mut *vx_st)
//@ rule __s.build_on_fun_decl(__a, __b) => __s.build_on_fun_decl(__a, __b, &mut *vx_st)
//@ rule __s.build_on_block(__a, __b, __c) => __s.build_on_block(__a, __b, __c, &mut *vx_st)
//@ rule __s.get_block_list(__a) => __s.get_block_list(__a, &mut *vx_st)
//@ rule __s.init_local_bbs(__a, __b, __c) => __s.init_local_bbs(__a, __b, __c, &mut *vx_st)

use vstd::std_specs::cmp::PartialEqSpec;
//@ item front::builder::BasicBlockInfo
//@ item front::builder::Builder

// ---- primitives ----
/// a reported error or warning (proved for C17; fewer than 2^63 reports assumed)
#[verifier::external_body]
pub fn vx_log(s: &Span, vx_st: &mut GlobalState) -> (r: Error)
    requires s.ordered(), old(vx_st).room(),
    ensures final(vx_st).plus_error(*old(vx_st)), final(vx_st).room(), r is Normal,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_warn(s: &Span, vx_st: &mut GlobalState)
    requires s.ordered(), old(vx_st).room(),
    ensures final(vx_st).plus_warning(*old(vx_st)), final(vx_st).room(),
{ unimplemented!() }
pub trait VxAsSlice<T> { spec fn sl(&self) -> Seq<T>; }
impl<T> VxAsSlice<T> for Vec<T> { open spec fn sl(&self) -> Seq<T> { self@ } }
impl<T> VxAsSlice<T> for [T] { open spec fn sl(&self) -> Seq<T> { self@ } }
impl<'a, T, X: VxAsSlice<T> + ?Sized> VxAsSlice<T> for &'a X { open spec fn sl(&self) -> Seq<T> { (**self).sl() } }
#[verifier::external_body]
pub fn vx_last<'a, T, X: VxAsSlice<T> + ?Sized>(v: &'a X) -> (r: &'a T) requires v.sl().len() > 0, ensures *r == v.sl().last(), { unimplemented!() }
#[verifier::external_body]
pub fn vx_first<'a, T, X: VxAsSlice<T> + ?Sized>(v: &'a X) -> (r: &'a T) requires v.sl().len() > 0, ensures *r == v.sl()[0], { unimplemented!() }
pub struct VxZip<'a, A, B> { pub a: &'a [A], pub b: &'a [B], pub i: usize }
#[verifier::external_body]
pub fn vx_zip<'a, A, B, X: VxAsSlice<A> + ?Sized, Y: VxAsSlice<B> + ?Sized>(a: &'a X, b: &'a Y) -> (r: VxZip<'a, A, B>)
    ensures r.a@ == a.sl(), r.b@ == b.sl(), r.i == 0,
{ unimplemented!() }
impl<'a, A, B> VxZip<'a, A, B> {
    pub fn vx_into_iter(self) -> (r: Self) ensures r == self, { self }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a A, &'a B)>)
        ensures
            final(self).a == old(self).a, final(self).b == old(self).b,
            old(self).i < old(self).a@.len() && old(self).i < old(self).b@.len() ==> r == Some((&old(self).a@[old(self).i as int], &old(self).b@[old(self).i as int])) && final(self).i == old(self).i + 1,
            !(old(self).i < old(self).a@.len() && old(self).i < old(self).b@.len()) ==> r is None && final(self).i == old(self).i,
    { unimplemented!() }
}
pub struct VxZipOwn<'a, A, B> { pub a: &'a [A], pub b: Ghost<Seq<B>>, pub i: usize }
#[verifier::external_body]
pub fn vx_zip_own<'a, A, B, X: VxAsSlice<A> + ?Sized>(a: &'a X, b: Vec<B>) -> (r: VxZipOwn<'a, A, B>)
    ensures r.a@ == a.sl(), r.b@ == b@, r.i == 0,
{ unimplemented!() }
impl<'a, A, B> VxZipOwn<'a, A, B> {
    pub fn vx_into_iter(self) -> (r: Self) ensures r == self, { self }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a A, B)>)
        ensures
            final(self).a == old(self).a, final(self).b == old(self).b,
            old(self).i < old(self).a@.len() && old(self).i < old(self).b@.len() ==> r == Some((&old(self).a@[old(self).i as int], old(self).b@[old(self).i as int])) && final(self).i == old(self).i + 1,
            !(old(self).i < old(self).a@.len() && old(self).i < old(self).b@.len()) ==> r is None && final(self).i == old(self).i,
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_clone_tys<X: VxAsSlice<Type> + ?Sized>(v: &X) -> (r: Vec<Type>) ensures tys(r@) == tys(v.sl()), { unimplemented!() }
pub uninterp spec fn numeric(c: char) -> bool;
#[verifier::external_body]
pub fn vx_numeric(c: char) -> (r: bool) ensures r == numeric(c), { c.is_numeric() }
pub struct VxChars<'a> { pub s: &'a String, pub i: Ghost<int> }
#[verifier::external_body]
pub fn vx_chars<'a>(s: &'a String) -> (r: VxChars<'a>) ensures r.s == s, r.i@ == 0, { unimplemented!() }
impl<'a> VxChars<'a> {
    pub fn vx_into_iter(self) -> (r: Self) ensures r == self, { self }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures final(self).s == old(self).s,
            old(self).i@ < old(self).s@.len() ==> r == Some(old(self).s@[old(self).i@]) && final(self).i@ == old(self).i@ + 1,
            old(self).i@ >= old(self).s@.len() ==> r is None && final(self).i@ == old(self).i@,
    { unimplemented!() }
}
/// strings are equal when their characters are
pub broadcast axiom fn axiom_string_eq(a: String, b: String)
    ensures #[trigger] a.eq_spec(&b) == (a@ == b@);
pub broadcast axiom fn axiom_string_obeys()
    ensures #[trigger] <String as PartialEqSpec>::obeys_eq_spec();
/// does nothing (ends the borrow for the verifier)
pub fn vx_same<T>(a: &mut T)
    ensures *final(a) == *old(a),
{}

// ---- names ----
/// a temporary name: `%` and digits
pub open spec fn temp(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) == '%' || numeric(s[i]) }
pub open spec fn kept(s: Seq<char>) -> Name { if temp(s) { None } else { Some(s) } }
pub trait VxSymbol { spec fn sy(&self) -> Seq<char>; fn is_temp(&self) -> (r: bool) ensures r == temp(self.sy()); }
impl VxSymbol for String {
    open spec fn sy(&self) -> Seq<char> { self@ }
//@ fn front::builder::String@Symbol::is_temp nopub
//@ loop 0
    invariant_except_break
        vx_all,
    invariant
        vx_it0.s == self, 0 <= vx_it0.i@ <= self@.len(),
        vx_all ==> forall|i: int| 0 <= i < vx_it0.i@ ==> (#[trigger] self@[i]) == '%' || numeric(self@[i]),
    ensures
        vx_all == temp(self@),
    decreases self@.len() - vx_it0.i@,
//@ end
}

// ---- types ----
pub open spec fn ty_of(t: Tree) -> Ty
    decreases t,
{
    match t {
        Tree::IntType => Ty::I32,
        Tree::ArrayType(b, n) => Ty::Arr(Box::new(ty_of(*b)), n),
        Tree::PointerType(b) => Ty::Ptr(Box::new(ty_of(*b))),
        Tree::FunType(p, r) => Ty::Fun(Seq::new(p.len(), |i: int| if 0 <= i < p.len() { ty_of(p[i]) } else { Ty::Unit }), Box::new(match r { Some(r) => ty_of(*r), None => Ty::Unit })),
        _ => Ty::Unit,
    }
}
pub open spec fn rty_of(r: Option<Box<Tree>>) -> Ty { match r { Some(r) => ty_of(*r), None => Ty::Unit } }
pub open spec fn tys_of(p: Seq<Tree>) -> Seq<Ty> { Seq::new(p.len(), |i: int| ty_of(p[i])) }
/// a type an operand can have
pub open spec fn good(t: Ty) -> bool
    decreases t,
{
    match t {
        Ty::I32 => true,
        Ty::Unit => false,
        Ty::Ptr(b) => good(*b),
        Ty::Arr(b, n) => n > 0 && good(*b),
        Ty::Fun(p, r) => (forall|i: int| #![trigger p[i]] 0 <= i < p.len() ==> good(p[i])) && (*r is Unit || good(*r)),
    }
}
pub open spec fn goods(p: Seq<Ty>) -> bool { forall|i: int| 0 <= i < p.len() ==> good(#[trigger] p[i]) }
pub proof fn lemma_good(t: Tree)
    requires wf_ty(t),
    ensures good(ty_of(t)),
    decreases t,
{
    match t {
        Tree::ArrayType(b, n) => lemma_good(*b),
        Tree::PointerType(b) => lemma_good(*b),
        Tree::FunType(p, r) => {
            assert forall|i: int| 0 <= i < p.len() implies good(ty_of(p[i])) by { lemma_good(p[i]); }
            match r { Some(r) => lemma_good(*r), None => {} }
        }
        _ => {}
    }
}

// ---- the state of the builder ----
pub struct BI { pub bb: BasicBlock, pub preds: Seq<Seq<char>>, pub defs: Map<Seq<char>, Value> }
pub open spec fn strs(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
pub open spec fn bi(i: BasicBlockInfo) -> BI { BI { bb: i.bb, preds: strs(i.preds@), defs: i.local_defs@ } }
pub open spec fn lbv(m: Map<Seq<char>, BasicBlockInfo>) -> Map<Seq<char>, BI> { m.map_values(|i: BasicBlockInfo| bi(i)) }
pub struct BV { pub p: PM, pub gv: Map<Seq<char>, Value>, pub gf: Map<Seq<char>, Function>, pub lb: Map<Seq<char>, BI>, pub ls: Set<Seq<char>> }
impl Builder {
    pub open spec fn v(&self) -> BV {
        BV { p: self.program.m(), gv: self.global_vars@, gf: self.global_funcs@, lb: lbv(self.local_bbs@), ls: self.local_symbols@ }
    }
}
/// what a statement of a function can refer to
pub struct LE {
    pub gv: Map<Seq<char>, Value>, pub gf: Map<Seq<char>, Function>, pub gvals: Map<Value, VM>, pub ftys: Map<Function, Ty>,
    pub lb: Map<Seq<char>, BI>, pub vals: Map<Value, VM>, pub bbs: Map<BasicBlock, BM>,
}
pub open spec fn le(b: BV, f: Function) -> LE {
    LE { gv: b.gv, gf: b.gf, gvals: b.p.gvals, ftys: env(b.p).ftys, lb: b.lb, vals: b.p.fns[f].vals, bbs: b.p.fns[f].bbs }
}
pub open spec fn vty(e: LE, v: Value) -> Option<Ty> { dty(e.vals, e.gvals, v) }

// ---- names: a definition in a block is visible there and wherever control goes from there ----
/// from block `a` back to block `q` in `n` steps
pub open spec fn reach_n(lb: Map<Seq<char>, BI>, a: Seq<char>, q: Seq<char>, n: nat) -> bool
    decreases n,
{
    if n == 0 { a == q } else { exists|k: int| 0 <= k < lb[a].preds.len() && reach_n(lb, #[trigger] lb[a].preds[k], q, (n - 1) as nat) }
}
pub open spec fn reach(lb: Map<Seq<char>, BI>, a: Seq<char>, q: Seq<char>) -> bool { exists|n: nat| reach_n(lb, a, q, n) }
pub open spec fn found(lb: Map<Seq<char>, BI>, bbn: Seq<char>, s: Seq<char>, v: Value) -> bool {
    exists|q: Seq<char>| #[trigger] reach(lb, bbn, q) && lb.contains_key(q) && lb[q].defs.contains_key(s) && lb[q].defs[s] == v
}
pub open spec fn sym_den(e: LE, bbn: Seq<char>, s: Seq<char>, v: Value) -> bool {
    if e.gv.contains_key(s) { v == e.gv[s] } else { found(e.lb, bbn, s, v) }
}

// ---- initializers ----
pub open spec fn init_ok(t: Tree, ty: Ty) -> bool
    decreases t,
{
    match t {
        Tree::IntVal(_) => ty is I32,
        Tree::Aggregate(es) => match ty {
            Ty::Arr(base, n) => n == es.len() && forall|i: int| #![trigger es[i]] 0 <= i < es.len() ==> init_ok(es[i], *base),
            _ => false,
        },
        _ => true,
    }
}
pub open spec fn init_den(vals: Map<Value, VM>, t: Tree, ty: Ty, v: Value) -> bool
    decreases t,
{
    &&& vals.contains_key(v) && vals[v].ty == ty && vals[v].name is None
    &&& match t {
        Tree::UndefVal => vals[v].kind is Undef,
        Tree::ZeroInit => vals[v].kind is Zero,
        Tree::IntVal(i) => ty is I32 && vals[v].kind == Kd::Int(i),
        Tree::Aggregate(es) => match ty {
            Ty::Arr(base, n) => match vals[v].kind {
                Kd::Agg(vs) => n == es.len() && vs.len() == es.len() && forall|i: int| #![trigger es[i]] 0 <= i < es.len() ==> init_den(vals, es[i], *base, vs[i]),
                _ => false,
            },
            _ => false,
        },
        _ => false,
    }
}
pub open spec fn inits_den(vals: Map<Value, VM>, ts: Seq<Tree>, ty: Ty, vs: Seq<Value>) -> bool {
    vs.len() == ts.len() && forall|i: int| 0 <= i < ts.len() ==> init_den(vals, #[trigger] ts[i], ty, vs[i])
}
// ---- operands ----
pub open spec fn val_den(e: LE, bbn: Seq<char>, t: Tree, ty: Ty, v: Value) -> bool {
    match t {
        Tree::SymbolRef(s) => sym_den(e, bbn, s, v) && vty(e, v) == Some(ty),
        _ => init_den(e.vals, t, ty, v),
    }
}
pub open spec fn val_ok(e: LE, bbn: Seq<char>, t: Tree, ty: Ty) -> bool {
    match t {
        Tree::SymbolRef(s) => exists|v: Value| #[trigger] sym_den(e, bbn, s, v) && vty(e, v) == Some(ty),
        _ => init_ok(t, ty),
    }
}
pub open spec fn args_den(e: LE, bbn: Seq<char>, ts: Seq<Tree>, ty: Seq<Ty>, vs: Seq<Value>) -> bool {
    ts.len() == ty.len() && vs.len() == ts.len() && forall|i: int| 0 <= i < ts.len() ==> val_den(e, bbn, #[trigger] ts[i], ty[i], vs[i])
}
pub open spec fn args_ok(e: LE, bbn: Seq<char>, ts: Seq<Tree>, ty: Seq<Ty>) -> bool {
    ts.len() == ty.len() && forall|i: int| 0 <= i < ts.len() ==> val_ok(e, bbn, #[trigger] ts[i], ty[i])
}
/// the parameter types of the named block
pub open spec fn target_tys(e: LE, n: Seq<char>) -> Seq<Ty> { par_tys(e.vals, e.bbs[e.lb[n].bb].pars) }

// ---- instructions ----
pub open spec fn inst_den(e: LE, bbn: Seq<char>, ret: Ty, t: Tree, v: Value) -> bool {
    let d = e.vals[v];
    &&& e.vals.contains_key(v)
    &&& match (t, d.kind) {
        (Tree::MemDecl(t), Kd::Alloc) => d.ty == Ty::Ptr(Box::new(ty_of(*t))),
        (Tree::Load(s), Kd::Load(p)) => sym_den(e, bbn, s, p) && vty(e, p) == Some(Ty::Ptr(Box::new(d.ty))),
        (Tree::GetPointer(s, i), Kd::GetPtr(p, x)) => sym_den(e, bbn, s, p) && vty(e, p) == Some(d.ty) && d.ty is Ptr && val_den(e, bbn, *i, Ty::I32, x),
        (Tree::GetElementPointer(s, i), Kd::GetElem(p, x)) => sym_den(e, bbn, s, p) && val_den(e, bbn, *i, Ty::I32, x) && match vty(e, p) {
            Some(Ty::Ptr(a)) => match *a { Ty::Arr(b, _) => d.ty == Ty::Ptr(b), _ => false },
            _ => false,
        },
        (Tree::BinaryExpr(o, l, r), Kd::Bin(op, x, y)) => o == op && val_den(e, bbn, *l, Ty::I32, x) && val_den(e, bbn, *r, Ty::I32, y) && d.ty is I32,
        (Tree::FunCall(n, a), Kd::Call(f, xs)) => e.gf.contains_key(n) && e.gf[n] == f && match e.ftys[f] { Ty::Fun(ps, r) => d.ty == *r && args_den(e, bbn, a, ps, xs), _ => false },
        (Tree::Store(t, s), Kd::Store(x, p)) => sym_den(e, bbn, s, p) && d.ty is Unit && match vty(e, p) { Some(Ty::Ptr(b)) => val_den(e, bbn, *t, *b, x), _ => false },
        (Tree::Branch(c, tb, ta, fb, fa), Kd::Br(x, bt, bf, tx, fx)) => val_den(e, bbn, *c, Ty::I32, x) && d.ty is Unit
            && e.lb.contains_key(tb) && e.lb[tb].bb == bt && args_den(e, bbn, ta, target_tys(e, tb), tx)
            && e.lb.contains_key(fb) && e.lb[fb].bb == bf && args_den(e, bbn, fa, target_tys(e, fb), fx)
            && (bt != bf || (tx.len() == 0 && fx.len() == 0)),
        (Tree::Jump(n, a), Kd::Jump(b, xs)) => e.lb.contains_key(n) && e.lb[n].bb == b && args_den(e, bbn, a, target_tys(e, n), xs) && d.ty is Unit,
        (Tree::Return(None), Kd::Ret(None)) => ret is Unit && d.ty is Unit,
        (Tree::Return(Some(t)), Kd::Ret(Some(x))) => !(ret is Unit) && d.ty is Unit && val_den(e, bbn, *t, ret, x),
        _ => false,
    }
}
/// the rule of an instruction holds
pub open spec fn inst_ok(e: LE, bbn: Seq<char>, ret: Ty, t: Tree) -> bool {
    match t {
        Tree::MemDecl(_) => true,
        Tree::Load(s) => exists|p: Value| #[trigger] sym_den(e, bbn, s, p) && vty(e, p)->0 is Ptr,
        Tree::GetPointer(s, i) => (exists|p: Value| #[trigger] sym_den(e, bbn, s, p) && vty(e, p)->0 is Ptr) && val_ok(e, bbn, *i, Ty::I32),
        Tree::GetElementPointer(s, i) => (exists|p: Value| #[trigger] sym_den(e, bbn, s, p) && vty(e, p)->0 is Ptr && *(vty(e, p)->0->Ptr_0) is Arr) && val_ok(e, bbn, *i, Ty::I32),
        Tree::BinaryExpr(_, l, r) => val_ok(e, bbn, *l, Ty::I32) && val_ok(e, bbn, *r, Ty::I32),
        Tree::FunCall(n, a) => e.gf.contains_key(n) && args_ok(e, bbn, a, e.ftys[e.gf[n]]->Fun_0),
        Tree::Store(t, s) => exists|p: Value| #[trigger] sym_den(e, bbn, s, p) && vty(e, p)->0 is Ptr && val_ok(e, bbn, *t, *(vty(e, p)->0->Ptr_0)),
        Tree::Branch(c, tb, ta, fb, fa) => val_ok(e, bbn, *c, Ty::I32) && e.lb.contains_key(tb) && e.lb.contains_key(fb)
            && args_ok(e, bbn, ta, target_tys(e, tb)) && args_ok(e, bbn, fa, target_tys(e, fb))
            && (e.lb[tb].bb != e.lb[fb].bb || (ta.len() == 0 && fa.len() == 0)),
        Tree::Jump(n, a) => e.lb.contains_key(n) && args_ok(e, bbn, a, target_tys(e, n)),
        Tree::Return(None) => ret is Unit,
        Tree::Return(Some(t)) => !(ret is Unit) && val_ok(e, bbn, *t, ret),
        _ => false,
    }
}
pub open spec fn stmt_den(e: LE, bbn: Seq<char>, ret: Ty, t: Tree, v: Value) -> bool {
    match t {
        Tree::SymbolDef(n, i) => inst_den(e, bbn, ret, *i, v) && e.vals[v].name == kept(n) && !(e.vals[v].ty is Unit)
            && e.lb.contains_key(bbn) && e.lb[bbn].defs.contains_key(n) && e.lb[bbn].defs[n] == v && !e.gv.contains_key(n),
        _ => inst_den(e, bbn, ret, t, v) && e.vals[v].name is None,
    }
}
pub open spec fn stmt_ok(e: LE, ls: Set<Seq<char>>, bbn: Seq<char>, ret: Ty, t: Tree) -> bool {
    match t {
        Tree::SymbolDef(n, i) => !e.gv.contains_key(n) && !ls.contains(n) && inst_ok(e, bbn, ret, *i)
            && match *i { Tree::FunCall(g, _) => !(*(e.ftys[e.gf[g]]->Fun_1) is Unit), _ => true },
        _ => inst_ok(e, bbn, ret, t),
    }
}

// ---- what always holds while a function is built ----
pub open spec fn bi_ok(fm: FM, lb: Map<Seq<char>, BI>, i: BI) -> bool {
    &&& fm.bbs.contains_key(i.bb) && fm.order.contains(i.bb) && fm.body.contains_key(i.bb)
    &&& forall|k: int| 0 <= k < i.preds.len() ==> lb.contains_key(#[trigger] i.preds[k])
    &&& forall|s: Seq<char>| #[trigger] i.defs.contains_key(s) ==> fm.vals.contains_key(i.defs[s]) && good(fm.vals[i.defs[s]].ty)
}
pub open spec fn bm_ok(fm: FM, m: BM) -> bool { forall|i: int| 0 <= i < m.pars.len() ==> fm.vals.contains_key(#[trigger] m.pars[i]) && good(fm.vals[m.pars[i]].ty) }
pub open spec fn body_ok(fm: FM, l: Seq<Value>) -> bool { forall|i: int| 0 <= i < l.len() ==> fm.vals.contains_key(#[trigger] l[i]) }
pub open spec fn linv(fm: FM, lb: Map<Seq<char>, BI>) -> bool {
    &&& forall|v: Value| #[trigger] fm.vals.contains_key(v) ==> !v.global()
    &&& forall|x: BasicBlock| #[trigger] fm.bbs.contains_key(x) ==> bm_ok(fm, fm.bbs[x])
    &&& forall|n: Seq<char>| #[trigger] lb.contains_key(n) ==> bi_ok(fm, lb, lb[n])
    &&& forall|x: BasicBlock| #[trigger] fm.body.contains_key(x) ==> body_ok(fm, fm.body[x])
}
pub open spec fn ginv(b: BV) -> bool {
    &&& forall|v: Value| #[trigger] b.p.gvals.contains_key(v) ==> v.global()
    &&& forall|s: Seq<char>| #[trigger] b.gv.contains_key(s) ==> b.p.gvals.contains_key(b.gv[s]) && good(b.p.gvals[b.gv[s]].ty)
    &&& forall|s: Seq<char>| #[trigger] b.gf.contains_key(s) ==> b.p.fns.contains_key(b.gf[s]) && b.p.fns[b.gf[s]].ty is Fun && good(b.p.fns[b.gf[s]].ty)
}
pub open spec fn inv(b: BV, f: Function) -> bool { ginv(b) && b.p.fns.contains_key(f) && linv(b.p.fns[f], b.lb) }
/// no name is defined twice in the function
pub open spec fn clean(b: BV) -> bool {
    &&& forall|n: Seq<char>, s: Seq<char>| b.lb.contains_key(n) && #[trigger] b.lb[n].defs.contains_key(s) ==> b.ls.contains(s)
    &&& forall|n: Seq<char>, m: Seq<char>, s: Seq<char>| b.lb.contains_key(n) && b.lb.contains_key(m) && #[trigger] b.lb[n].defs.contains_key(s) && #[trigger] b.lb[m].defs.contains_key(s) ==> n == m
}
pub open spec fn gpre(b: BV, f: Function, bbn: Seq<char>, st: GlobalState) -> bool {
    inv(b, f) && b.lb.contains_key(bbn) && st.room() && (st.err_num == 0 ==> clean(b))
}
pub open spec fn with(b: BV, f: Function, vals: Map<Value, VM>) -> BV {
    BV { p: PM { fns: b.p.fns.insert(f, FM { vals: vals, ..b.p.fns[f] }), ..b.p }, ..b }
}
pub open spec fn dmof(b: BV, f: Function) -> DM { DM { vals: b.p.fns[f].vals, bbs: b.p.fns[f].bbs } }
pub open spec fn withd(b: BV, f: Function, d: DM) -> BV {
    BV { p: PM { fns: b.p.fns.insert(f, FM { vals: d.vals, bbs: d.bbs, ..b.p.fns[f] }), ..b.p }, ..b }
}
pub open spec fn sub(v0: Map<Value, VM>, v1: Map<Value, VM>) -> bool {
    &&& forall|v: Value| #[trigger] v0.contains_key(v) ==> v1.contains_key(v) && v1[v] == v0[v]
    &&& forall|v: Value| #[trigger] v1.contains_key(v) ==> v0.contains_key(v) || !v.global()
}
pub open spec fn keeps(v0: Map<Value, VM>, v1: Map<Value, VM>) -> bool {
    forall|v: Value| #[trigger] v0.contains_key(v) ==> v1.contains_key(v) && v1[v].ty == v0[v].ty && v1[v].kind == v0[v].kind && (const_kd(v0[v].kind) ==> v1[v] == v0[v])
}
/// global values are only added
pub open spec fn gsub(v0: Map<Value, VM>, v1: Map<Value, VM>) -> bool {
    &&& forall|v: Value| #[trigger] v0.contains_key(v) ==> v1.contains_key(v) && v1[v] == v0[v]
    &&& forall|v: Value| #[trigger] v1.contains_key(v) ==> v0.contains_key(v) || v.global()
}
/// the same up to names of instructions and parameters
pub open spec fn subw(v0: Map<Value, VM>, v1: Map<Value, VM>) -> bool {
    &&& keeps(v0, v1)
    &&& forall|v: Value| #[trigger] v1.contains_key(v) ==> v0.contains_key(v) || !v.global()
}
/// only values were added to the function
pub open spec fn grow(b0: BV, b1: BV, f: Function) -> bool {
    b1 == with(b0, f, b1.p.fns[f].vals) && sub(b0.p.fns[f].vals, b1.p.fns[f].vals)
}
pub open spec fn gpost(b0: BV, b1: BV, f: Function, s0: GlobalState, s1: GlobalState) -> bool {
    inv(b1, f) && grow(b0, b1, f) && s1.after(s0)
}
/// an error was reported; if it is the first one, the rule does not hold
pub open spec fn bad(s0: GlobalState, s1: GlobalState, ok: bool) -> bool { s1.err_num > s0.err_num && (s0.err_num == 0 ==> !ok) }

/// what the function that makes an instruction ensures
pub open spec fn ipost(b0: BV, b1: BV, f: Function, s0: GlobalState, s1: GlobalState, bbn: Seq<char>, ret: Ty, t: Tree, r: Result<Value, Error>) -> bool {
    gpost(b0, b1, f, s0, s1) && match r {
        Ok(v) => s1 == s0 && inst_den(le(b1, f), bbn, ret, t, v) && b1.p.fns[f].vals[v].name is None && !b0.p.fns[f].vals.contains_key(v)
            && (b1.p.fns[f].vals[v].ty is Unit && !(t is MemDecl || t is Load || t is GetPointer || t is GetElementPointer || t is BinaryExpr) || good(b1.p.fns[f].vals[v].ty)),
        Err(_) => bad(s0, s1, inst_ok(le(b0, f), bbn, ret, t)),
    }
}
/// the blocks are the same (their definitions may differ)
pub open spec fn lb_same(a: Map<Seq<char>, BI>, b: Map<Seq<char>, BI>) -> bool {
    &&& forall|n: Seq<char>| #[trigger] a.contains_key(n) <==> b.contains_key(n)
    &&& forall|n: Seq<char>| #[trigger] a.contains_key(n) ==> b[n].bb == a[n].bb && b[n].preds == a[n].preds
}
/// the names defined after a statement, and what they stand for
pub open spec fn dn(ls: Set<Seq<char>>, t: Tree) -> Set<Seq<char>> { match t { Tree::SymbolDef(n, _) => ls.insert(n), _ => ls } }
pub open spec fn dd(d: Map<Seq<char>, Value>, t: Tree, v: Value) -> Map<Seq<char>, Value> { match t { Tree::SymbolDef(n, _) => d.insert(n, v), _ => d } }
pub open spec fn dlb(lb: Map<Seq<char>, BI>, bbn: Seq<char>, t: Tree, v: Value) -> Map<Seq<char>, BI> { lb.insert(bbn, BI { defs: dd(lb[bbn].defs, t, v), ..lb[bbn] }) }
pub open spec fn dns(ls: Set<Seq<char>>, ts: Seq<Tree>, k: int) -> Set<Seq<char>>
    decreases k,
{
    if k <= 0 { ls } else { dn(dns(ls, ts, k - 1), ts[k - 1]) }
}
pub open spec fn dds(d: Map<Seq<char>, Value>, ts: Seq<Tree>, vs: Seq<Value>, k: int) -> Map<Seq<char>, Value>
    decreases k,
{
    if k <= 0 { d } else { dd(dds(d, ts, vs, k - 1), ts[k - 1], vs[k - 1]) }
}
/// what building a statement ensures
pub open spec fn spost(b0: BV, b1: BV, f: Function, s0: GlobalState, s1: GlobalState, bbn: Seq<char>, ret: Ty, t: Tree, r: Result<Value, Error>) -> bool {
    &&& inv(b1, f) && s1.after(s0) && (s1.err_num == 0 ==> clean(b1))
    &&& b1 == (BV { lb: b1.lb, ls: b1.ls, ..with(b0, f, b1.p.fns[f].vals) }) && sub(b0.p.fns[f].vals, b1.p.fns[f].vals) && lb_same(b0.lb, b1.lb)
    &&& match r {
        Ok(v) => b1.p.fns[f].vals.contains_key(v) && !b0.p.fns[f].vals.contains_key(v)
            && (s1.err_num == 0 ==> s1 == s0 && stmt_den(le(b1, f), bbn, ret, t, v) && esub(le(b0, f), le(b1, f)) && b1.ls == dn(b0.ls, t) && b1.lb == dlb(b0.lb, bbn, t, v)),
        Err(_) => s1.err_num > 0,
    }
    &&& s0.err_num == 0 && s1.err_num > 0 ==> !stmt_ok(le(b0, f), b0.ls, bbn, ret, t)
}
// ---- the blocks of a function, from the entry on ----
pub open spec fn btree(b: Block) -> Tree { Tree::Block(b.name@, ptrees(b.params@), trees(b.stmts@)) }
pub open spec fn btrees(v: Seq<&Block>) -> Seq<Tree> { v.map_values(|b: &Block| btree(*b)) }
pub open spec fn bname(t: Tree) -> Seq<char> { t->Block_0 }
pub open spec fn bpars(t: Tree) -> Seq<(Seq<char>, Tree)> { t->Block_1 }
pub open spec fn bstmts(t: Tree) -> Seq<Tree> { t->Block_2 }
/// control can go from the block `t` to the block called `n`
pub open spec fn tgt(t: Tree, n: Seq<char>) -> bool {
    match bstmts(t).last() {
        Tree::Branch(_, tb, _, fb, _) => n == tb || n == fb,
        Tree::Jump(x, _) => n == x,
        _ => false,
    }
}
pub open spec fn bhas(bs: Seq<Tree>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < bs.len() && bname(#[trigger] bs[i]) == n }
#[verifier::opaque]
pub open spec fn bdistinct(bs: Seq<Tree>) -> bool { forall|i: int, j: int| 0 <= i < j < bs.len() ==> bname(#[trigger] bs[i]) != bname(#[trigger] bs[j]) }
/// a branch or jump can go to `n`: a block with this name other than the entry
pub open spec fn tgt_ok(bs: Seq<Tree>, n: Seq<char>) -> bool { n != bname(bs[0]) && bhas(bs, n) }
#[verifier::opaque]
pub open spec fn tgts_ok(bs: Seq<Tree>, t: Tree) -> bool { forall|n: Seq<char>| #[trigger] tgt(t, n) ==> tgt_ok(bs, n) }
pub open spec fn targeted(bl: Seq<Tree>, k: int, n: Seq<char>) -> bool { exists|i: int| 0 <= i < k && tgt(#[trigger] bl[i], n) }
/// `bl` are the blocks of `bs` control can reach, the entry first
#[verifier::opaque]
pub open spec fn list_den(bs: Seq<Tree>, bl: Seq<Tree>) -> bool {
    &&& bl.len() > 0 && bname(bl[0]) == bname(bs[0])
    &&& bdistinct(bl)
    &&& forall|j: int| 0 <= j < bl.len() ==> bs.contains(#[trigger] bl[j])
    &&& forall|j: int| 0 < j < bl.len() ==> targeted(bl, j, bname(#[trigger] bl[j]))
    &&& forall|j: int, n: Seq<char>| 0 <= j < bl.len() && #[trigger] tgt(bl[j], n) && tgt_ok(bs, n) ==> bhas(bl, n)
}
/// block names are unique and control only goes to blocks there are
#[verifier::opaque]
pub open spec fn list_ok(bs: Seq<Tree>, bl: Seq<Tree>) -> bool { bdistinct(bs) && forall|j: int| 0 <= j < bl.len() ==> tgts_ok(bs, #[trigger] bl[j]) }
pub open spec fn qhas(q: Seq<&String>, n: Seq<char>) -> bool { exists|k: int| 0 <= k < q.len() && (#[trigger] q[k])@ == n }
/// while the blocks are being collected
#[verifier::opaque]
pub open spec fn binv(bs: Seq<Tree>, bl: Seq<Tree>, q: Seq<&String>, vis: Set<Seq<char>>) -> bool {
    &&& forall|n: Seq<char>| #[trigger] vis.contains(n) <==> bhas(bl, n)
    &&& bdistinct(bl)
    &&& forall|j: int| 0 <= j < bl.len() ==> bs.contains(#[trigger] bl[j])
    &&& if bl.len() == 0 { q.len() == 1 && q[0]@ == bname(bs[0]) } else { bname(bl[0]) == bname(bs[0]) }
    &&& forall|j: int| 0 < j < bl.len() ==> targeted(bl, j, bname(#[trigger] bl[j]))
    &&& forall|n: Seq<char>| #[trigger] qhas(q, n) ==> bhas(bs, n) && (n == bname(bs[0]) || targeted(bl, bl.len() as int, n))
    &&& forall|j: int, n: Seq<char>| 0 <= j < bl.len() && #[trigger] tgt(bl[j], n) && tgt_ok(bs, n) ==> bhas(bl, n) || qhas(q, n)
}
#[verifier::opaque]
pub open spec fn all_tgts_ok(bs: Seq<Tree>, bl: Seq<Tree>) -> bool { forall|j: int| 0 <= j < bl.len() ==> tgts_ok(bs, #[trigger] bl[j]) }
pub open spec fn spans_in_order(m: Map<Seq<char>, (&Span, &Block)>) -> bool { forall|n: Seq<char>| #[trigger] m.contains_key(n) ==> m[n].0.ordered() }
/// the map from names to blocks after `i` blocks of `bs`
#[verifier::opaque]
pub open spec fn minv(bs: Seq<Tree>, i: int, m: Map<Seq<char>, (&Span, &Block)>) -> bool {
    &&& forall|k: int| 0 <= k < i ==> m.contains_key(bname(#[trigger] bs[k]))
    &&& forall|n: Seq<char>| #[trigger] m.contains_key(n) ==> m[n].0.ordered() && m[n].1.name@ == n && bhas(bs.take(i), n) && bs.contains(btree(*m[n].1))
}
// ---- the header of a function: its blocks and their parameters ----
pub open spec fn pnt(ps: Seq<(Seq<char>, Tree)>) -> Seq<(Name, Ty)> { ps.map_values(|p: (Seq<char>, Tree)| (kept(p.0), ty_of(p.1))) }
/// what the first `k` parameter names stand for
pub open spec fn pmap(ps: Seq<(Seq<char>, Tree)>, vs: Seq<Value>, k: int) -> Map<Seq<char>, Value>
    decreases k,
{
    if k <= 0 { Map::empty() } else { pmap(ps, vs, k - 1).insert(ps[k - 1].0, vs[k - 1]) }
}
pub open spec fn pset(ps: Seq<(Seq<char>, Tree)>, k: int) -> Set<Seq<char>>
    decreases k,
{
    if k <= 0 { Set::empty() } else { pset(ps, k - 1).insert(ps[k - 1].0) }
}
/// the names of the parameters of the first `k` blocks
pub open spec fn bset(bl: Seq<Tree>, k: int) -> Set<Seq<char>>
    decreases k,
{
    if k <= 0 { Set::empty() } else { bset(bl, k - 1).union(pset(bpars(bl[k - 1]), bpars(bl[k - 1]).len() as int)) }
}
/// the first `k` parameters have names of their own
pub open spec fn puniq(gv: Map<Seq<char>, Value>, s: Set<Seq<char>>, ps: Seq<(Seq<char>, Tree)>, k: int) -> bool {
    forall|i: int| 0 <= i < k ==> !gv.contains_key((#[trigger] ps[i]).0) && !s.union(pset(ps, i)).contains(ps[i].0)
}
pub open spec fn huniq(gv: Map<Seq<char>, Value>, a: Set<Seq<char>>, bl: Seq<Tree>, k: int) -> bool {
    forall|i: int| 0 <= i < k ==> puniq(gv, a.union(bset(bl, i)), bpars(#[trigger] bl[i]), bpars(bl[i]).len() as int)
}
/// the block `t` is made: `i`
pub open spec fn bb_den(fm: FM, i: BI, t: Tree) -> bool {
    let m = fm.bbs[i.bb];
    &&& fm.bbs.contains_key(i.bb) && m.name == kept(bname(t)) && m.pars.len() == bpars(t).len()
    &&& forall|k: int| 0 <= k < m.pars.len() ==> fm.vals.contains_key(#[trigger] m.pars[k])
        && fm.vals[m.pars[k]] == (VM { ty: ty_of(bpars(t)[k].1), name: kept(bpars(t)[k].0), kind: Kd::BArg(k) })
}
/// the first `k` blocks are made, in this order, and nothing else
#[verifier::opaque]
pub open spec fn made(f0: FM, fm: FM, lb: Map<Seq<char>, BI>, bl: Seq<Tree>, k: int) -> bool {
    &&& fm == (FM { vals: fm.vals, bbs: fm.bbs, order: fm.order, body: fm.body, ..f0 }) && sub(f0.vals, fm.vals)
    &&& fm.order.len() == k && fm.order.no_duplicates()
    &&& forall|x: BasicBlock| #[trigger] fm.bbs.contains_key(x) <==> fm.order.contains(x)
    &&& forall|x: BasicBlock| #[trigger] fm.body.contains_key(x) <==> fm.order.contains(x)
    &&& forall|x: BasicBlock| #[trigger] fm.body.contains_key(x) ==> fm.body[x] == Seq::<Value>::empty()
    &&& forall|n: Seq<char>| #[trigger] lb.contains_key(n) <==> bhas(bl.take(k), n)
    &&& forall|j: int| 0 <= j < k ==> lb[bname(#[trigger] bl[j])].bb == fm.order[j] && bb_den(fm, lb[bname(bl[j])], bl[j])
}
/// the definitions visible in the blocks at first: the function's parameters in the entry, the blocks' own in the others
pub open spec fn defs_den(fm: FM, lb: Map<Seq<char>, BI>, bl: Seq<Tree>, args: Map<Seq<char>, Value>, k: int) -> bool {
    forall|j: int| 0 <= j < k ==> lb[bname(#[trigger] bl[j])].defs == if j == 0 { args } else { pmap(bpars(bl[j]), fm.bbs[lb[bname(bl[j])].bb].pars, bpars(bl[j]).len() as int) }
}
pub open spec fn pdefs_den(fm: FM, lb: Map<Seq<char>, BI>, bl: Seq<Tree>, k: int) -> bool {
    forall|j: int| 0 <= j < k ==> lb[bname(#[trigger] bl[j])].defs == pmap(bpars(bl[j]), fm.bbs[lb[bname(bl[j])].bb].pars, bpars(bl[j]).len() as int)
        && lb[bname(bl[j])].preds == Seq::<Seq<char>>::empty()
}
pub open spec fn from(bl: Seq<Tree>, k: int, m: Seq<char>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < k && bname(#[trigger] bl[i]) == m && tgt(bl[i], n) }
/// the predecessors of a block are the blocks from which control can go there (first `k` blocks done)
#[verifier::opaque]
pub open spec fn preds_den(lb: Map<Seq<char>, BI>, bl: Seq<Tree>, k: int) -> bool {
    forall|n: Seq<char>, m: Seq<char>| lb.contains_key(n) ==> (#[trigger] lb[n].preds.contains(m) <==> from(bl, k, m, n))
}
pub open spec fn hdr_den(f0: FM, fm: FM, lb: Map<Seq<char>, BI>, bl: Seq<Tree>, args: Map<Seq<char>, Value>) -> bool {
    made(f0, fm, lb, bl, bl.len() as int) && defs_den(fm, lb, bl, args, bl.len() as int) && preds_den(lb, bl, bl.len() as int)
}
/// before the blocks of the function are made
pub open spec fn hpre(b: BV, f: Function, args: Map<Seq<char>, Value>) -> bool {
    let fm = b.p.fns[f];
    &&& ginv(b) && b.p.fns.contains_key(f) && b.ls == Set::<Seq<char>>::empty()
    &&& fm.bbs == Map::<BasicBlock, BM>::empty() && fm.order == Seq::<BasicBlock>::empty() && fm.body == Map::<BasicBlock, Seq<Value>>::empty()
    &&& forall|v: Value| #[trigger] fm.vals.contains_key(v) ==> !v.global()
    &&& forall|s: Seq<char>| #[trigger] args.contains_key(s) ==> fm.vals.contains_key(args[s]) && good(fm.vals[args[s]].ty)
}
pub open spec fn within(b: BV, f: Function, fm: FM, lb: Map<Seq<char>, BI>, ls: Set<Seq<char>>) -> BV {
    BV { p: PM { fns: b.p.fns.insert(f, fm), ..b.p }, lb: lb, ls: ls, ..b }
}
pub open spec fn addp(lb: Map<Seq<char>, BI>, n: Seq<char>, m: Seq<char>) -> Map<Seq<char>, BI> {
    if lb.contains_key(n) { lb.insert(n, BI { preds: lb[n].preds.push(m), ..lb[n] }) } else { lb }
}
#[verifier::opaque]
pub open spec fn hpost(b0: BV, b1: BV, f: Function, bl: Seq<Tree>, args: Map<Seq<char>, Value>, s0: GlobalState, s1: GlobalState) -> bool {
    &&& b1 == within(b0, f, b1.p.fns[f], b1.lb, b1.ls) && inv(b1, f) && s1.after(s0)
    &&& hdr_den(b0.p.fns[f], b1.p.fns[f], b1.lb, bl, args)
    &&& (s1.err_num == s0.err_num) == huniq(b0.gv, args.dom(), bl, bl.len() as int)
    &&& s1.err_num == s0.err_num ==> clean(b1) && b1.ls == args.dom().union(bset(bl, bl.len() as int))
}
// ---- the statements of a block ----
pub open spec fn stmts_den(e: LE, bbn: Seq<char>, ret: Ty, ts: Seq<Tree>, vs: Seq<Value>, k: int) -> bool {
    forall|i: int| 0 <= i < k ==> stmt_den(e, bbn, ret, ts[i], #[trigger] vs[i])
}
/// some statement breaks its rule when the ones before it have been built
pub open spec fn stuck_at(e0: LE, e: LE, ls: Set<Seq<char>>, bbn: Seq<char>, ret: Ty, ts: Seq<Tree>, vs: Seq<Value>) -> bool {
    vs.len() < ts.len() && esub(e0, e) && stmts_den(e, bbn, ret, ts, vs, vs.len() as int) && !stmt_ok(e, dns(ls, ts, vs.len() as int), bbn, ret, ts[vs.len() as int])
}
pub open spec fn stuck(e0: LE, ls: Set<Seq<char>>, bbn: Seq<char>, ret: Ty, ts: Seq<Tree>) -> bool {
    exists|e: LE, vs: Seq<Value>| #[trigger] stuck_at(e0, e, ls, bbn, ret, ts, vs)
}
/// after `k` statements of the block called `bbn`
#[verifier::opaque]
pub open spec fn kpost(b0: BV, b1: BV, f: Function, s0: GlobalState, s1: GlobalState, bbn: Seq<char>, ret: Ty, ts: Seq<Tree>, k: int) -> bool {
    let (f0, f1) = (b0.p.fns[f], b1.p.fns[f]);
    let x = b0.lb[bbn].bb;
    &&& inv(b1, f) && s1.after(s0) && (s1.err_num == 0 ==> clean(b1))
    &&& b1 == within(b0, f, FM { vals: f1.vals, body: f0.body.insert(x, f1.body[x]), ..f0 }, b1.lb, b1.ls)
    &&& sub(f0.vals, f1.vals) && lb_same(b0.lb, b1.lb)
    &&& s1.err_num == 0 ==> esub(le(b0, f), le(b1, f)) && f1.body[x].len() == k && stmts_den(le(b1, f), bbn, ret, ts, f1.body[x], k)
        && b1.ls == dns(b0.ls, ts, k) && b1.lb == b0.lb.insert(bbn, BI { defs: dds(b0.lb[bbn].defs, ts, f1.body[x], k), ..b0.lb[bbn] })
    &&& s0.err_num == 0 && s1.err_num > 0 ==> stuck(le(b0, f), b0.ls, bbn, ret, ts)
}
pub open spec fn pushed(b: BV, f: Function, x: BasicBlock, v: Value) -> BV {
    within(b, f, FM { body: b.p.fns[f].body.insert(x, b.p.fns[f].body[x].push(v)), ..b.p.fns[f] }, b.lb, b.ls)
}
#[verifier::opaque]
pub open spec fn kpre(b: BV, f: Function, s: GlobalState, bbn: Seq<char>, ret: Ty, ts: Seq<Tree>) -> bool {
    &&& gpre(b, f, bbn, s) && (ret is Unit || good(ret))
    &&& b.p.fns[f].body[b.lb[bbn].bb].len() == 0
    &&& forall|i: int| 0 <= i < ts.len() ==> wf_stmt(#[trigger] ts[i]) && (ts[i] is Error ==> s.err_num > 0)
}
// ---- items ----
pub open spec fn gmid(b0: BV, b1: BV, s0: GlobalState, s1: GlobalState) -> bool {
    ginv(b1) && s1.after(s0) && gsub(b0.p.gvals, b1.p.gvals) && b1 == (BV { p: PM { gvals: b1.p.gvals, ..b0.p }, ..b0 })
}
/// the global `n` is made: `v`
pub open spec fn glob_den(b0: BV, b1: BV, n: Seq<char>, t: Tree, i: Tree, v: Value) -> bool {
    &&& !b0.gv.contains_key(n) && !b0.gf.contains_key(n) && b1.gv == b0.gv.insert(n, v) && b1.p.insts == b0.p.insts.push(v)
    &&& b1.p.gvals.contains_key(v) && b1.p.gvals[v].ty == Ty::Ptr(Box::new(ty_of(t))) && b1.p.gvals[v].name == kept(n)
    &&& match b1.p.gvals[v].kind { Kd::GAlloc(x) => init_den(b1.p.gvals, i, ty_of(t), x), _ => false }
}
/// `f` is added for the name `n`
pub open spec fn fshape(b0: BV, b: BV, f: Function, n: Seq<char>) -> bool {
    &&& !b0.p.fns.contains_key(f)
    &&& b == (BV {
        p: PM { fns: b0.p.fns.insert(f, b.p.fns[f]), order: b0.p.order.push(f), ..b0.p },
        gf: if b0.gv.contains_key(n) { b0.gf } else { b0.gf.insert(n, f) }, lb: b.lb, ls: b.ls, ..b0
    })
}
pub open spec fn taken(b: BV, n: Seq<char>) -> bool { b.gv.contains_key(n) || b.gf.contains_key(n) }
/// every block is there; those from `j` on are empty
#[verifier::opaque]
pub open spec fn wst(b0: BV, b: BV, f: Function, n: Seq<char>, bl: Seq<Tree>, j: int) -> bool {
    let fm = b.p.fns[f];
    &&& fshape(b0, b, f, n) && inv(b, f) && fm.order.len() == bl.len() && fm.order.no_duplicates()
    &&& forall|m: Seq<char>| #[trigger] b.lb.contains_key(m) <==> bhas(bl, m)
    &&& forall|k: int| 0 <= k < bl.len() ==> b.lb[bname(#[trigger] bl[k])].bb == fm.order[k] && (k >= j ==> fm.body[fm.order[k]].len() == 0)
}
/// the parameters
pub open spec fn fpars(fm: FM, ps: Seq<(Seq<char>, Tree)>) -> bool {
    fm.pars.len() == ps.len() && forall|k: int| 0 <= k < ps.len() ==> fm.vals.contains_key(#[trigger] fm.pars[k])
        && fm.vals[fm.pars[k]] == (VM { ty: ty_of(ps[k].1), name: kept(ps[k].0), kind: Kd::FArg(k) })
}
pub open spec fn fargs(fm: FM, ps: Seq<(Seq<char>, Tree)>) -> Map<Seq<char>, Value> { pmap(ps, fm.pars, ps.len() as int) }
/// what is visible at the start of block number `k`
pub open spec fn first(fm: FM, x: BasicBlock, ps: Seq<(Seq<char>, Tree)>, bl: Seq<Tree>, k: int) -> Map<Seq<char>, Value> {
    if k == 0 { fargs(fm, ps) } else { pmap(bpars(bl[k]), fm.bbs[x].pars, bpars(bl[k]).len() as int) }
}
/// block number `k`: its name, its parameters and, when it is built, its statements
pub open spec fn blk(b: BV, f: Function, ps: Seq<(Seq<char>, Tree)>, ret: Ty, bl: Seq<Tree>, k: int, built: bool) -> bool {
    let fm = b.p.fns[f];
    let i = b.lb[bname(bl[k])];
    let (l, ts) = (fm.body[i.bb], bstmts(bl[k]));
    &&& bb_den(fm, i, bl[k])
    &&& if built { l.len() == ts.len() && stmts_den(le(b, f), bname(bl[k]), ret, ts, l, ts.len() as int) && i.defs == dds(first(fm, i.bb, ps, bl, k), ts, l, ts.len() as int) }
        else { i.defs == first(fm, i.bb, ps, bl, k) }
}
pub open spec fn blk_at(b: BV, f: Function, ps: Seq<(Seq<char>, Tree)>, ret: Ty, bl: Seq<Tree>, k: int, j: int) -> bool { blk(b, f, ps, ret, bl, k, k < j) }
/// the names defined when `k` blocks are built
pub open spec fn lsb(base: Set<Seq<char>>, bl: Seq<Tree>, k: int) -> Set<Seq<char>>
    decreases k,
{
    if k <= 0 { base } else { dns(lsb(base, bl, k - 1), bstmts(bl[k - 1]), bstmts(bl[k - 1]).len() as int) }
}
/// the function as its tree denotes it, the first `j` blocks built
#[verifier::opaque]
pub open spec fn fst(b: BV, f: Function, n: Seq<char>, ps: Seq<(Seq<char>, Tree)>, ret: Ty, bl: Seq<Tree>, j: int) -> bool {
    let fm = b.p.fns[f];
    &&& fm.name == n && fm.ty == Ty::Fun(pty(pnt(ps)), Box::new(ret)) && fpars(fm, ps)
    &&& forall|x: BasicBlock| #[trigger] fm.bbs.contains_key(x) <==> fm.order.contains(x)
    &&& forall|x: BasicBlock| #[trigger] fm.body.contains_key(x) <==> fm.order.contains(x)
    &&& preds_den(b.lb, bl, bl.len() as int)
    &&& forall|k: int| 0 <= k < bl.len() ==> #[trigger] blk_at(b, f, ps, ret, bl, k, j)
    &&& b.ls == lsb(pset(ps, ps.len() as int).union(bset(bl, bl.len() as int)), bl, j)
}
/// the names of the function's parameters and blocks, and of the parameters of its blocks, are in order
pub open spec fn head_ok(b0: BV, n: Seq<char>, ps: Seq<(Seq<char>, Tree)>, bs: Seq<Tree>, bl: Seq<Tree>) -> bool {
    puniq(b0.gv, Set::empty(), ps, ps.len() as int) && !taken(b0, n) && list_ok(bs, bl) && huniq(b0.gv, pset(ps, ps.len() as int), bl, bl.len() as int)
}
pub open spec fn fun_made(b0: BV, b1: BV, f: Function, n: Seq<char>, ps: Seq<(Seq<char>, Tree)>, ret: Ty, bs: Seq<Tree>, bl: Seq<Tree>) -> bool {
    list_den(bs, bl) && head_ok(b0, n, ps, bs, bl) && wst(b0, b1, f, n, bl, bl.len() as int) && fst(b1, f, n, ps, ret, bl, bl.len() as int)
}
pub open spec fn fun_den(b0: BV, b1: BV, f: Function, n: Seq<char>, ps: Seq<(Seq<char>, Tree)>, ret: Ty, bs: Seq<Tree>) -> bool {
    exists|bl: Seq<Tree>| #[trigger] fun_made(b0, b1, f, n, ps, ret, bs, bl)
}
/// a statement of block number `j` breaks its rule
pub open spec fn stuck_in(b0: BV, b: BV, f: Function, n: Seq<char>, ps: Seq<(Seq<char>, Tree)>, ret: Ty, bl: Seq<Tree>, j: int) -> bool {
    0 <= j < bl.len() && wst(b0, b, f, n, bl, j) && fst(b, f, n, ps, ret, bl, j) && stuck(le(b, f), b.ls, bname(bl[j]), ret, bstmts(bl[j]))
}
pub open spec fn fun_bad_at(b0: BV, n: Seq<char>, ps: Seq<(Seq<char>, Tree)>, ret: Ty, bs: Seq<Tree>, bl: Seq<Tree>) -> bool {
    list_den(bs, bl) && (!head_ok(b0, n, ps, bs, bl) || exists|b: BV, f: Function, j: int| #[trigger] stuck_in(b0, b, f, n, ps, ret, bl, j))
}
pub open spec fn fun_bad(b0: BV, n: Seq<char>, ps: Seq<(Seq<char>, Tree)>, ret: Ty, bs: Seq<Tree>) -> bool {
    exists|bl: Seq<Tree>| #[trigger] fun_bad_at(b0, n, ps, ret, bs, bl)
}
pub open spec fn item_den(b0: BV, b1: BV, t: Tree) -> bool {
    match t {
        Tree::GlobalDef(n, d) => match *d {
            Tree::GlobalDecl(ty, i) => gsub(b0.p.gvals, b1.p.gvals) && b1 == (BV { p: PM { gvals: b1.p.gvals, insts: b1.p.insts, ..b0.p }, gv: b1.gv, ..b0 })
                && exists|v: Value| #[trigger] glob_den(b0, b1, n, *ty, *i, v),
            _ => false,
        },
        Tree::FunDef(n, ps, r, bs) => exists|f: Function| #[trigger] fshape(b0, b1, f, n) && fun_den(b0, b1, f, n, ps, rty_of(r), bs),
        Tree::FunDecl(n, ps, r) => !taken(b0, n) && exists|f: Function| #[trigger] fshape(b0, b1, f, n) && decl_fun(b1.p.fns[f], n, tys_of(ps), rty_of(r)),
        _ => b1 == b0,
    }
}
/// no rule is broken
pub open spec fn item_bad(b0: BV, t: Tree) -> bool {
    match t {
        Tree::GlobalDef(n, d) => match *d { Tree::GlobalDecl(ty, i) => taken(b0, n) || !init_ok(*i, ty_of(*ty)), _ => false },
        Tree::FunDef(n, ps, r, bs) => fun_bad(b0, n, ps, rty_of(r), bs),
        Tree::FunDecl(n, ps, r) => taken(b0, n),
        _ => false,
    }
}
/// what was there stays as it was
pub open spec fn frame(b0: BV, b1: BV) -> bool {
    &&& gsub(b0.p.gvals, b1.p.gvals)
    &&& forall|f: Function| #[trigger] b0.p.fns.contains_key(f) ==> b1.p.fns.contains_key(f) && b1.p.fns[f] == b0.p.fns[f]
    &&& b0.p.order.is_prefix_of(b1.p.order) && b0.p.insts.is_prefix_of(b1.p.insts)
}
pub open spec fn item_post(b0: BV, b1: BV, s0: GlobalState, s1: GlobalState, t: Tree) -> bool {
    &&& ginv(b1) && s1.after(s0) && frame(b0, b1)
    &&& s1.err_num == 0 ==> item_den(b0, b1, t)
    &&& s0.err_num == 0 && s1.err_num > 0 ==> item_bad(b0, t)
}
// ---- lemmas ----
/// the nodes come from the parser, which makes none without a span in order (c17_parser)
pub broadcast axiom fn axiom_node_span(a: ast::Ast)
    ensures (#[trigger] a.span).ordered();
pub mod facts {
use super::*;
pub broadcast proof fn lemma_lbv(m: Map<Seq<char>, BasicBlockInfo>, k: Seq<char>, i: BasicBlockInfo)
    ensures #[trigger] lbv(m.insert(k, i)) == lbv(m).insert(k, bi(i)),
{ assert(lbv(m.insert(k, i)) =~= lbv(m).insert(k, bi(i))); }
pub broadcast proof fn lemma_grow_refl(b: BV, f: Function)
    requires #[trigger] b.p.fns.contains_key(f), inv(b, f),
    ensures grow(b, b, f),
{ assert(b.p.fns.insert(f, FM { vals: b.p.fns[f].vals, ..b.p.fns[f] }) =~= b.p.fns); }
pub broadcast proof fn lemma_grow_trans(a: BV, b: BV, c: BV, f: Function)
    requires #[trigger] grow(a, b, f), #[trigger] grow(b, c, f),
    ensures grow(a, c, f),
{ assert(c.p.fns =~= with(a, f, c.p.fns[f].vals).p.fns); }
/// what only adding values does not change
pub broadcast proof fn lemma_grow_le(a: BV, b: BV, f: Function)
    requires #[trigger] grow(a, b, f), a.p.fns.contains_key(f),
    ensures le(b, f) == (LE { vals: b.p.fns[f].vals, ..le(a, f) }), env(b.p) == env(a.p), b.p.fns.contains_key(f),
{ assert(env(b.p).ftys =~= env(a.p).ftys); }
pub proof fn lemma_grow_inv(a: BV, b: BV, f: Function)
    requires grow(a, b, f), inv(a, f),
    ensures inv(b, f),
{
    let (x, y) = (a.p.fns[f], b.p.fns[f]);
    assert(y == FM { vals: y.vals, ..x });
    assert forall|n: Seq<char>| #[trigger] b.lb.contains_key(n) implies bi_ok(y, b.lb, b.lb[n]) by { assert(bi_ok(x, a.lb, a.lb[n])); }
    assert forall|n: BasicBlock| #[trigger] y.bbs.contains_key(n) implies bm_ok(y, y.bbs[n]) by { assert(bm_ok(x, x.bbs[n])); }
    assert forall|n: BasicBlock| #[trigger] y.body.contains_key(n) implies body_ok(y, y.body[n]) by { assert(body_ok(x, x.body[n])); }
}
/// a new value is made in the function
pub broadcast proof fn lemma_new(a: BV, f: Function, d: DM, v: Value, ty: Ty, k: Kd)
    requires inv(a, f), #[trigger] dnew(dmof(a, f), d, v, ty, k),
    ensures ({
        let b = #[trigger] withd(a, f, d);
        inv(b, f) && grow(a, b, f) && b.p.fns[f].vals == a.p.fns[f].vals.insert(v, anon(ty, k)) && !a.p.fns[f].vals.contains_key(v)
    }),
{
    let b = withd(a, f, d);
    assert(b == with(a, f, d.vals));
    lemma_grow_inv(a, b, f);
}
pub proof fn lemma_init_mono(v0: Map<Value, VM>, v1: Map<Value, VM>, t: Tree, ty: Ty, v: Value)
    requires keeps(v0, v1), init_den(v0, t, ty, v),
    ensures init_den(v1, t, ty, v),
    decreases t,
{
    match (t, ty, v0[v].kind) {
        (Tree::Aggregate(es), Ty::Arr(base, n), Kd::Agg(vs)) => {
            assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies init_den(v1, es[i], *base, vs[i]) by { lemma_init_mono(v0, v1, es[i], *base, vs[i]); }
        }
        _ => {}
    }
}
pub broadcast proof fn lemma_inits_mono(v0: Map<Value, VM>, v1: Map<Value, VM>, ts: Seq<Tree>, ty: Ty, vs: Seq<Value>)
    requires #[trigger] subw(v0, v1), #[trigger] inits_den(v0, ts, ty, vs),
    ensures inits_den(v1, ts, ty, vs),
{
    assert forall|i: int| 0 <= i < ts.len() implies init_den(v1, #[trigger] ts[i], ty, vs[i]) by { lemma_init_mono(v0, v1, ts[i], ty, vs[i]); }
}
pub proof fn lemma_agg(vals: Map<Value, VM>, gvals: Map<Value, VM>, ts: Seq<Tree>, ty: Ty, vs: Seq<Value>)
    requires inits_den(vals, ts, ty, vs), ts.len() > 0, !(ty is Unit),
    ensures agg_ok(vals, gvals, vs), dty(vals, gvals, vs[0]) == Some(ty),
{
    assert forall|i: int| 0 <= i < vs.len() implies dty(vals, gvals, #[trigger] vs[i]) == Some(ty) && const_kd(vals[vs[i]].kind) && vals.contains_key(vs[i]) by {
        assert(init_den(vals, ts[i], ty, vs[i]));
    }
}
pub broadcast proof fn lemma_tys_push(v: Seq<Type>, t: Type)
    ensures #[trigger] tys(v.push(t)) == tys(v).push(t@),
{ assert(tys(v.push(t)) =~= tys(v).push(t@)); }
pub proof fn lemma_agg_part(t: Tree, ts: Seq<Tree>, i: int)
    requires t == Tree::Aggregate(ts), wf_init(t), 0 <= i < ts.len(),
    ensures wf_init(ts[i]), decreases_to!(t => ts[i]),
{
    match t {
        Tree::Aggregate(es) => {
            assert(es == ts);
            assert(wf_init(t) == forall|i: int| #![trigger es[i]] 0 <= i < es.len() ==> wf_init(es[i]));
            assert(wf_init(es[i]));
            assert(decreases_to!(t => es[i]));
        }
        _ => {}
    }
}
pub broadcast proof fn lemma_args_typed(e: LE, bbn: Seq<char>, t: Seq<Tree>, ty: Seq<Ty>, v: Seq<Value>)
    requires #[trigger] args_den(e, bbn, t, ty, v),
    ensures typed(e.vals, e.gvals, v, ty),
{
    assert forall|i: int| 0 <= i < v.len() implies dty(e.vals, e.gvals, #[trigger] v[i]) == Some(ty[i]) by { assert(val_den(e, bbn, t[i], ty[i], v[i])); }
}
/// the blocks are the same, with more definitions
pub open spec fn lb_sub(a: Map<Seq<char>, BI>, b: Map<Seq<char>, BI>) -> bool {
    &&& forall|n: Seq<char>| #[trigger] a.contains_key(n) <==> b.contains_key(n)
    &&& forall|n: Seq<char>| #[trigger] a.contains_key(n) ==> b[n].bb == a[n].bb && b[n].preds == a[n].preds
    &&& forall|n: Seq<char>, s: Seq<char>| a.contains_key(n) && #[trigger] a[n].defs.contains_key(s) ==> b[n].defs.contains_key(s) && b[n].defs[s] == a[n].defs[s]
    &&& forall|n: Seq<char>, k: int| a.contains_key(n) && 0 <= k < a[n].preds.len() ==> a.contains_key(#[trigger] a[n].preds[k])
}
/// everything that can be referred to in `a` is in `b`, unchanged
pub open spec fn esub(a: LE, b: LE) -> bool {
    &&& b.gv == a.gv && b.gf == a.gf && b.gvals == a.gvals && b.ftys == a.ftys && b.bbs == a.bbs
    &&& lb_sub(a.lb, b.lb)
    &&& subw(a.vals, b.vals)
    &&& forall|v: Value| #[trigger] a.gvals.contains_key(v) ==> v.global()
    &&& forall|n: Seq<char>| #[trigger] a.lb.contains_key(n) ==> a.bbs.contains_key(a.lb[n].bb)
    &&& forall|x: BasicBlock, k: int| a.bbs.contains_key(x) && 0 <= k < a.bbs[x].pars.len() ==> a.vals.contains_key(#[trigger] a.bbs[x].pars[k])
}
pub proof fn lemma_esub_trans(a: LE, b: LE, c: LE)
    requires esub(a, b), esub(b, c),
    ensures esub(a, c),
{
    assert forall|n: Seq<char>, s: Seq<char>| a.lb.contains_key(n) && #[trigger] a.lb[n].defs.contains_key(s) implies c.lb[n].defs.contains_key(s) && c.lb[n].defs[s] == a.lb[n].defs[s] by {
        assert(b.lb[n].defs.contains_key(s));
    }
}
pub proof fn lemma_reach_mono(a: Map<Seq<char>, BI>, b: Map<Seq<char>, BI>, x: Seq<char>, q: Seq<char>, n: nat)
    requires lb_sub(a, b), a.contains_key(x), reach_n(a, x, q, n),
    ensures reach_n(b, x, q, n),
    decreases n,
{
    if n > 0 {
        let k = choose|k: int| 0 <= k < a[x].preds.len() && reach_n(a, #[trigger] a[x].preds[k], q, (n - 1) as nat);
        lemma_reach_mono(a, b, a[x].preds[k], q, (n - 1) as nat);
        assert(reach_n(b, b[x].preds[k], q, (n - 1) as nat));
    }
}
pub broadcast proof fn lemma_sym_mono(a: LE, b: LE, bbn: Seq<char>, s: Seq<char>, v: Value)
    requires #[trigger] esub(a, b), a.lb.contains_key(bbn), #[trigger] sym_den(a, bbn, s, v),
    ensures sym_den(b, bbn, s, v), vty(a, v) is Some ==> vty(b, v) == vty(a, v),
{
    if !a.gv.contains_key(s) {
        let q = choose|q: Seq<char>| #[trigger] reach(a.lb, bbn, q) && a.lb.contains_key(q) && a.lb[q].defs.contains_key(s) && a.lb[q].defs[s] == v;
        let n = choose|n: nat| reach_n(a.lb, bbn, q, n);
        lemma_reach_mono(a.lb, b.lb, bbn, q, n);
        assert(reach(b.lb, bbn, q));
    }
}
pub broadcast proof fn lemma_val_mono(a: LE, b: LE, bbn: Seq<char>, t: Tree, ty: Ty, v: Value)
    requires #[trigger] esub(a, b), a.lb.contains_key(bbn), #[trigger] val_den(a, bbn, t, ty, v),
    ensures val_den(b, bbn, t, ty, v),
{
    match t { Tree::SymbolRef(s) => lemma_sym_mono(a, b, bbn, s, v), _ => lemma_init_mono(a.vals, b.vals, t, ty, v) }
}
pub broadcast proof fn lemma_args_mono(a: LE, b: LE, bbn: Seq<char>, t: Seq<Tree>, ty: Seq<Ty>, v: Seq<Value>)
    requires #[trigger] esub(a, b), a.lb.contains_key(bbn), #[trigger] args_den(a, bbn, t, ty, v),
    ensures args_den(b, bbn, t, ty, v),
{
    assert forall|i: int| 0 <= i < t.len() implies val_den(b, bbn, #[trigger] t[i], ty[i], v[i]) by { lemma_val_mono(a, b, bbn, t[i], ty[i], v[i]); }
}
pub broadcast proof fn lemma_val_ok_mono(a: LE, b: LE, bbn: Seq<char>, t: Tree, ty: Ty)
    requires #[trigger] esub(a, b), a.lb.contains_key(bbn), val_ok(a, bbn, t, ty),
    ensures #[trigger] val_ok(b, bbn, t, ty),
{
    match t {
        Tree::SymbolRef(s) => {
            let v = choose|v: Value| #[trigger] sym_den(a, bbn, s, v) && vty(a, v) == Some(ty);
            lemma_sym_mono(a, b, bbn, s, v);
        }
        _ => {}
    }
}
pub broadcast proof fn lemma_args_ok_mono(a: LE, b: LE, bbn: Seq<char>, t: Seq<Tree>, ty: Seq<Ty>)
    requires #[trigger] esub(a, b), a.lb.contains_key(bbn), args_ok(a, bbn, t, ty),
    ensures #[trigger] args_ok(b, bbn, t, ty),
{
    assert forall|i: int| 0 <= i < t.len() implies val_ok(b, bbn, #[trigger] t[i], ty[i]) by { lemma_val_ok_mono(a, b, bbn, t[i], ty[i]); }
}
pub broadcast proof fn lemma_target_mono(a: LE, b: LE, n: Seq<char>)
    requires #[trigger] esub(a, b), a.lb.contains_key(n),
    ensures #[trigger] target_tys(b, n) == target_tys(a, n),
{
    let p = a.bbs[a.lb[n].bb].pars;
    assert forall|i: int| 0 <= i < p.len() implies b.vals[p[i]].ty == a.vals[p[i]].ty by { assert(a.vals.contains_key(a.bbs[a.lb[n].bb].pars[i])); }
    assert(target_tys(b, n) =~= target_tys(a, n));
}
pub broadcast proof fn lemma_grow_sub(a: BV, b: BV, f: Function)
    requires #[trigger] grow(a, b, f), inv(a, f),
    ensures esub(le(a, f), le(b, f)),
{
    lemma_grow_le(a, b, f);
    let fm = a.p.fns[f];
    let e = le(a, f);
    assert forall|n: Seq<char>| #[trigger] e.lb.contains_key(n) implies bi_ok(fm, a.lb, e.lb[n]) by {}
    assert forall|x: BasicBlock, k: int| e.bbs.contains_key(x) && 0 <= k < e.bbs[x].pars.len() implies e.vals.contains_key(#[trigger] e.bbs[x].pars[k]) by { assert(bm_ok(fm, fm.bbs[x])); }
}
pub open spec fn named(b: BV, f: Function, v: Value, n: Name) -> BV { with(b, f, b.p.fns[f].vals.insert(v, VM { name: n, ..b.p.fns[f].vals[v] })) }
pub open spec fn defined(b: BV, bbn: Seq<char>, n: Seq<char>, v: Value) -> BV { BV { lb: b.lb.insert(bbn, BI { defs: b.lb[bbn].defs.insert(n, v), ..b.lb[bbn] }), ..b } }
/// what was said of an instruction stays true
pub proof fn lemma_inst_mono(a: LE, b: LE, bbn: Seq<char>, ret: Ty, t: Tree, v: Value)
    requires esub(a, b), a.lb.contains_key(bbn), inst_den(a, bbn, ret, t, v),
    ensures inst_den(b, bbn, ret, t, v),
{
    broadcast use {lemma_sym_mono, lemma_val_mono, lemma_args_mono, lemma_target_mono};
}
pub proof fn lemma_stmt_mono(a: LE, b: LE, bbn: Seq<char>, ret: Ty, t: Tree, v: Value)
    requires esub(a, b), a.lb.contains_key(bbn), stmt_den(a, bbn, ret, t, v), b.vals[v] == a.vals[v],
    ensures stmt_den(b, bbn, ret, t, v),
{
    match t { Tree::SymbolDef(_, i) => lemma_inst_mono(a, b, bbn, ret, *i, v), _ => lemma_inst_mono(a, b, bbn, ret, t, v) }
}
/// the state after a definition
pub proof fn lemma_define(b0: BV, ba: BV, b1: BV, b3: BV, f: Function, s0: GlobalState, s1: GlobalState, bbn: Seq<char>, ret: Ty, n: Seq<char>, i: Tree, v: Value)
    requires
        gpre(b0, f, bbn, s0), ba == (BV { ls: ba.ls, ..b0 }), s1.after(s0),
        s1.err_num == 0 ==> ba.ls == b0.ls.insert(n) && !b0.gv.contains_key(n) && !b0.ls.contains(n),
        grow(ba, b1, f), inv(b1, f), !b0.p.fns[f].vals.contains_key(v),
        inst_den(le(b1, f), bbn, ret, i, v), good(b1.p.fns[f].vals[v].ty), b1.p.fns[f].vals[v].name is None,
        b3 == defined(b1, bbn, n, v) && kept(n) is None || b3 == defined(named(b1, f, v, kept(n)), bbn, n, v),
    ensures
        inv(b3, f), b3 == (BV { lb: b3.lb, ls: b3.ls, ..with(b0, f, b3.p.fns[f].vals) }), sub(b0.p.fns[f].vals, b3.p.fns[f].vals), lb_same(b0.lb, b3.lb),
        b3.p.fns[f].vals.contains_key(v),
        s1.err_num == 0 ==> clean(b3) && esub(le(b0, f), le(b3, f)) && stmt_den(le(b3, f), bbn, ret, Tree::SymbolDef(n, Box::new(i)), v)
            && b3.ls == b0.ls.insert(n) && b3.lb == b0.lb.insert(bbn, BI { defs: b0.lb[bbn].defs.insert(n, v), ..b0.lb[bbn] }),
{
    let (f0, f1, f3) = (b0.p.fns[f], b1.p.fns[f], b3.p.fns[f]);
    assert(b3.p.fns =~= b0.p.fns.insert(f, f3));
    assert(f3 == FM { vals: f3.vals, ..f0 });
    assert(bi_ok(f1, b1.lb, b1.lb[bbn]));
    assert(!const_kd(f1.vals[v].kind));
    assert(subw(f1.vals, f3.vals));
    assert forall|m: Seq<char>| #[trigger] b3.lb.contains_key(m) implies bi_ok(f3, b3.lb, b3.lb[m]) by { assert(bi_ok(f1, b1.lb, b1.lb[m])); }
    assert forall|x: BasicBlock| #[trigger] f3.bbs.contains_key(x) implies bm_ok(f3, f3.bbs[x]) by { assert(bm_ok(f1, f1.bbs[x])); }
    assert forall|x: BasicBlock| #[trigger] f3.body.contains_key(x) implies body_ok(f3, f3.body[x]) by { assert(body_ok(f1, f1.body[x])); }
    if s1.err_num == 0 {
        let (e0, e1, e3) = (le(b0, f), le(b1, f), le(b3, f));
        assert(inv(ba, f));
        lemma_grow_sub(ba, b1, f);
        assert(e0 == le(ba, f));
        assert(e3 == LE { vals: f3.vals, lb: b3.lb, ..e1 }) by { assert(env(b3.p).ftys =~= env(b1.p).ftys); }
        assert(clean(ba));
        assert(lb_sub(b1.lb, b3.lb));
        assert(esub(e1, e3));
        lemma_esub_trans(e0, e1, e3);
        lemma_inst_mono(e1, e3, bbn, ret, i, v);
    }
}
/// a visited set that is closed and has no definition proves that there is none
pub proof fn lemma_closed(lb: Map<Seq<char>, BI>, vis: Set<Seq<char>>, a: Seq<char>, q: Seq<char>, n: nat)
    requires vis.contains(a), reach_n(lb, a, q, n),
        forall|x: Seq<char>, k: int| vis.contains(x) && 0 <= k < lb[x].preds.len() ==> vis.contains(#[trigger] lb[x].preds[k]),
    ensures vis.contains(q),
    decreases n,
{
    if n > 0 {
        let k = choose|k: int| 0 <= k < lb[a].preds.len() && reach_n(lb, #[trigger] lb[a].preds[k], q, (n - 1) as nat);
        lemma_closed(lb, vis, lb[a].preds[k], q, (n - 1) as nat);
    }
}
pub proof fn lemma_smaller(d: Set<Seq<char>>, a: Set<Seq<char>>, b: Set<Seq<char>>, x: Seq<char>)
    requires d.contains(x), !a.contains(x), b.contains(x), a.subset_of(b),
    ensures d.difference(b).len() < d.difference(a).len(),
{
    assert(d.difference(b).subset_of(d.difference(a).remove(x)));
    vstd::set_lib::lemma_len_subset(d.difference(b), d.difference(a).remove(x));
}
pub proof fn lemma_diff(d: Set<Seq<char>>, a: Set<Seq<char>>, b: Set<Seq<char>>)
    ensures a.subset_of(b) ==> d.difference(b).len() <= d.difference(a).len(),
{
    if a.subset_of(b) {
        assert(d.difference(b).subset_of(d.difference(a)));
        vstd::set_lib::lemma_len_subset(d.difference(b), d.difference(a));
    }
}
pub proof fn lemma_none_trans(lb: Map<Seq<char>, BI>, a: Set<Seq<char>>, b: Set<Seq<char>>, c: Set<Seq<char>>, s: Seq<char>)
    ensures none_in(lb, a, b, s) && none_in(lb, b, c, s) ==> none_in(lb, a, c, s),
{}
pub proof fn lemma_step(lb: Map<Seq<char>, BI>, n: Seq<char>, s: Seq<char>, v: Value)
    ensures found_pred(lb, n, s, v) ==> found(lb, n, s, v),
{
    if found_pred(lb, n, s, v) {
        let k = choose|k: int| 0 <= k < lb[n].preds.len() && found(lb, #[trigger] lb[n].preds[k], s, v);
        let q = choose|q: Seq<char>| #[trigger] reach(lb, lb[n].preds[k], q) && lb.contains_key(q) && lb[q].defs.contains_key(s) && lb[q].defs[s] == v;
        let m = choose|m: nat| reach_n(lb, lb[n].preds[k], q, m);
        assert(reach_n(lb, n, q, m + 1));
        assert(reach(lb, n, q));
    }
}
/// no definition is found when the search visited every block it could reach
pub proof fn lemma_nowhere(lb: Map<Seq<char>, BI>, vis: Set<Seq<char>>, n: Seq<char>, s: Seq<char>)
    requires none_in(lb, Set::empty(), vis, s), vis.contains(n),
    ensures forall|v: Value| !found(lb, n, s, v),
{
    assert forall|v: Value| !found(lb, n, s, v) by {
        if found(lb, n, s, v) {
            let q = choose|q: Seq<char>| #[trigger] reach(lb, n, q) && lb.contains_key(q) && lb[q].defs.contains_key(s) && lb[q].defs[s] == v;
            let m = choose|m: nat| reach_n(lb, n, q, m);
            lemma_closed(lb, vis, n, q, m);
        }
    }
}
/// names are unique: a name stands for one value
pub proof fn lemma_one(b: BV, f: Function, bbn: Seq<char>, s: Seq<char>, v: Value, w: Value)
    requires clean(b), sym_den(le(b, f), bbn, s, v), sym_den(le(b, f), bbn, s, w),
    ensures v == w,
{ }
pub broadcast proof fn lemma_qpush(q: Seq<&String>, x: &String, n: Seq<char>)
    ensures #[trigger] qhas(q.push(x), n) <==> qhas(q, n) || x@ == n,
{
    if qhas(q, n) { let k = choose|k: int| 0 <= k < q.len() && (#[trigger] q[k])@ == n; assert(q.push(x)[k]@ == n); }
    if x@ == n { assert(q.push(x)[q.len() as int]@ == n); }
}
pub proof fn lemma_qpop(q: Seq<&String>)
    requires q.len() > 0,
    ensures forall|n: Seq<char>| #[trigger] qhas(q, n) <==> q[0]@ == n || qhas(q.subrange(1, q.len() as int), n),
{
    let r = q.subrange(1, q.len() as int);
    assert forall|n: Seq<char>| #[trigger] qhas(q, n) <==> q[0]@ == n || qhas(r, n) by {
        if qhas(q, n) { let k = choose|k: int| 0 <= k < q.len() && (#[trigger] q[k])@ == n; if k > 0 { assert(r[k - 1]@ == n); } }
        if qhas(r, n) { let k = choose|k: int| 0 <= k < r.len() && (#[trigger] r[k])@ == n; assert(q[k + 1]@ == n); }
    }
}
pub broadcast proof fn lemma_bhas_push(bl: Seq<Tree>, t: Tree, n: Seq<char>)
    ensures #[trigger] bhas(bl.push(t), n) <==> bhas(bl, n) || bname(t) == n,
{
    let b = bl.push(t);
    if bhas(bl, n) { let i = choose|i: int| 0 <= i < bl.len() && bname(#[trigger] bl[i]) == n; assert(bname(b[i]) == n); }
    if bname(t) == n { assert(bname(b[bl.len() as int]) == n); }
}
pub proof fn lemma_distinct_push(bl: Seq<Tree>, t: Tree)
    ensures bdistinct(bl.push(t)) <==> bdistinct(bl) && !bhas(bl, bname(t)),
{
    reveal(bdistinct);
    let b = bl.push(t);
    if bdistinct(b) {
        assert forall|i: int, j: int| 0 <= i < j < bl.len() implies bname(#[trigger] bl[i]) != bname(#[trigger] bl[j]) by { assert(b[i] == bl[i] && b[j] == bl[j]); }
        if bhas(bl, bname(t)) { let i = choose|i: int| 0 <= i < bl.len() && bname(#[trigger] bl[i]) == bname(t); assert(b[i] == bl[i]); assert(b[bl.len() as int] == t); }
    }
}
/// the next block was collected before
pub proof fn lemma_seen(bs: Seq<Tree>, bl: Seq<Tree>, q0: Seq<&String>, vis: Set<Seq<char>>)
    requires binv(bs, bl, q0, vis), q0.len() > 0, vis.contains(q0[0]@),
    ensures binv(bs, bl, q0.subrange(1, q0.len() as int), vis),
{
    reveal(binv);
    lemma_qpop(q0);
    let r = q0.subrange(1, q0.len() as int);
    assert(bhas(bl, q0[0]@));
    assert forall|n: Seq<char>| #[trigger] qhas(r, n) implies bhas(bs, n) && (n == bname(bs[0]) || targeted(bl, bl.len() as int, n)) by { assert(qhas(q0, n)); }
    assert forall|j: int, n: Seq<char>| 0 <= j < bl.len() && #[trigger] tgt(bl[j], n) && tgt_ok(bs, n) implies bhas(bl, n) || qhas(r, n) by { assert(bhas(bl, n) || qhas(q0, n)); }
}
/// the next block is collected
pub proof fn lemma_visit(bs: Seq<Tree>, bl: Seq<Tree>, q0: Seq<&String>, vis: Set<Seq<char>>, t: Tree, q1: Seq<&String>)
    requires binv(bs, bl, q0, vis), q0.len() > 0, !vis.contains(q0[0]@), bname(t) == q0[0]@, bs.contains(t),
        forall|n: Seq<char>| #[trigger] qhas(q1, n) <==> qhas(q0.subrange(1, q0.len() as int), n) || (tgt(t, n) && tgt_ok(bs, n)),
    ensures binv(bs, bl.push(t), q1, vis.insert(q0[0]@)),
{
    broadcast use lemma_bhas_push;
    reveal(binv);
    lemma_qpop(q0);
    lemma_distinct_push(bl, t);
    let b = bl.push(t);
    let k = bl.len() as int;
    assert(qhas(q0, q0[0]@));
    assert forall|j: int| 0 <= j < b.len() implies bs.contains(#[trigger] b[j]) by { if j < k { assert(b[j] == bl[j]); } }
    assert forall|j: int| 0 < j < b.len() implies targeted(b, j, bname(#[trigger] b[j])) by {
        if j < k {
            assert(b[j] == bl[j]);
            let i = choose|i: int| 0 <= i < j && tgt(#[trigger] bl[i], bname(bl[j])); assert(b[i] == bl[i]);
        } else {
            if bname(t) == bname(bs[0]) { assert(bhas(bl, bname(bl[0]))); }
            let i = choose|i: int| 0 <= i < k && tgt(#[trigger] bl[i], bname(t)); assert(b[i] == bl[i]);
        }
    }
    assert forall|n: Seq<char>| #[trigger] qhas(q1, n) implies bhas(bs, n) && (n == bname(bs[0]) || targeted(b, k + 1, n)) by {
        if tgt(t, n) && tgt_ok(bs, n) { assert(b[k] == t); }
        else {
            assert(qhas(q0, n));
            if n != bname(bs[0]) { let i = choose|i: int| 0 <= i < k && tgt(#[trigger] bl[i], n); assert(b[i] == bl[i]); }
        }
    }
    assert forall|j: int, n: Seq<char>| 0 <= j < b.len() && #[trigger] tgt(b[j], n) && tgt_ok(bs, n) implies bhas(b, n) || qhas(q1, n) by {
        if j < k { assert(b[j] == bl[j]); } else { assert(b[j] == t); }
    }
}
pub proof fn lemma_start(bs: Seq<Tree>, q: Seq<&String>)
    requires bs.len() > 0, q.len() == 1, q[0]@ == bname(bs[0]),
    ensures binv(bs, Seq::empty(), q, Set::empty()), all_tgts_ok(bs, Seq::empty()),
{
    reveal(binv); reveal(bdistinct); reveal(all_tgts_ok);
    assert(bhas(bs, bname(bs[0])));
}
pub proof fn lemma_done(bs: Seq<Tree>, bl: Seq<Tree>, q: Seq<&String>, vis: Set<Seq<char>>)
    requires binv(bs, bl, q, vis), q.len() == 0,
    ensures list_den(bs, bl), list_ok(bs, bl) == (bdistinct(bs) && all_tgts_ok(bs, bl)),
{
    reveal(binv); reveal(list_den); reveal(list_ok); reveal(all_tgts_ok);
}
pub proof fn lemma_map_push(bs: Seq<Tree>, i: int, m: Map<Seq<char>, (&Span, &Block)>, sp: &Span, b: &Block)
    requires minv(bs, i, m), sp.ordered(), 0 <= i < bs.len(), btree(*b) == bs[i],
    ensures minv(bs, i + 1, m.insert(b.name@, (sp, b))), (bdistinct(bs.take(i + 1))) == (bdistinct(bs.take(i)) && !m.contains_key(b.name@)),
{
    broadcast use lemma_bhas_push;
    reveal(minv);
    assert(bs.take(i + 1) =~= bs.take(i).push(bs[i]));
    lemma_distinct_push(bs.take(i), bs[i]);
    if bhas(bs.take(i), b.name@) { let k = choose|k: int| 0 <= k < i && bname(#[trigger] bs.take(i)[k]) == b.name@; assert(m.contains_key(bname(bs[k]))); }
}
/// the next name is that of a block
pub proof fn lemma_front(bs: Seq<Tree>, m: Map<Seq<char>, (&Span, &Block)>, bl: Seq<Tree>, q: Seq<&String>, vis: Set<Seq<char>>)
    requires minv(bs, bs.len() as int, m), binv(bs, bl, q, vis), q.len() > 0, forall|i: int| 0 <= i < bs.len() ==> wf_block(#[trigger] bs[i]),
    ensures
        m.contains_key(q[0]@),
        bs.contains(btree(*m[q[0]@].1)), bname(btree(*m[q[0]@].1)) == q[0]@, wf_block(btree(*m[q[0]@].1)),
        !vis.contains(q[0]@) ==> m.dom().difference(vis.insert(q[0]@)).len() < m.dom().difference(vis).len(),
        forall|n: Seq<char>| #[trigger] m.contains_key(n) == bhas(bs, n),
{
    reveal(binv); reveal(minv);
    assert(bs.take(bs.len() as int) =~= bs);
    assert forall|n: Seq<char>| m.contains_key(n) == bhas(bs, n) by {
        if bhas(bs, n) { let k = choose|k: int| 0 <= k < bs.len() && bname(#[trigger] bs[k]) == n; assert(m.contains_key(bname(bs[k]))); }
    }
    assert(qhas(q, q[0]@));
    let t = btree(*m[q[0]@].1);
    let k = choose|k: int| 0 <= k < bs.len() && bs[k] == t;
    assert(wf_block(bs[k]));
    if !vis.contains(q[0]@) { lemma_smaller(m.dom(), vis, vis.insert(q[0]@), q[0]@); }
}
pub proof fn lemma_tgts_of(bs: Seq<Tree>, t: Tree)
    ensures tgts_ok(bs, t) == match bstmts(t).last() {
        Tree::Branch(_, tb, _, fb, _) => tgt_ok(bs, tb) && tgt_ok(bs, fb),
        Tree::Jump(n, _) => tgt_ok(bs, n),
        _ => true,
    },
{
    reveal(tgts_ok);
    match bstmts(t).last() {
        Tree::Branch(_, tb, _, fb, _) => { assert(tgt(t, tb)); assert(tgt(t, fb)); }
        Tree::Jump(n, _) => { assert(tgt(t, n)); }
        _ => {}
    }
}
pub proof fn lemma_tgts_push(bs: Seq<Tree>, bl: Seq<Tree>, t: Tree)
    ensures all_tgts_ok(bs, bl.push(t)) <==> all_tgts_ok(bs, bl) && tgts_ok(bs, t),
{
    reveal(all_tgts_ok);
    let b = bl.push(t);
    assert forall|j: int| 0 <= j < bl.len() implies b[j] == bl[j] by {}
    if all_tgts_ok(bs, b) {
        assert(b[bl.len() as int] == t);
        assert forall|j: int| 0 <= j < bl.len() implies tgts_ok(bs, #[trigger] bl[j]) by { assert(b[j] == bl[j]); }
    }
}
pub broadcast proof fn lemma_strs_push(v: Seq<String>, x: String)
    ensures #[trigger] strs(v.push(x)) == strs(v).push(x@),
{ assert(strs(v.push(x)) =~= strs(v).push(x@)); }
pub proof fn lemma_pnt_push(v: Seq<(Option<String>, Type)>, x: (Option<String>, Type), ps: Seq<(Seq<char>, Tree)>, i: int)
    requires 0 <= i < ps.len(), nts(v) == pnt(ps.take(i)), nm(x.0) == kept(ps[i].0), x.1@ == ty_of(ps[i].1),
    ensures nts(v.push(x)) == pnt(ps.take(i + 1)),
{
    assert(ps.take(i + 1) =~= ps.take(i).push(ps[i]));
    assert(nts(v.push(x)) =~= nts(v).push((nm(x.0), x.1@)));
    assert(pnt(ps.take(i + 1)) =~= pnt(ps.take(i)).push((kept(ps[i].0), ty_of(ps[i].1))));
}
pub proof fn lemma_pars_ok(ps: Seq<(Seq<char>, Tree)>)
    requires wf_params(ps),
    ensures pars_ok(pnt(ps)), forall|i: int| 0 <= i < ps.len() ==> good(#[trigger] ty_of(ps[i].1)),
{
    assert forall|i: int| 0 <= i < ps.len() implies good(#[trigger] ty_of(ps[i].1)) by { lemma_good(ps[i].1); }
    assert forall|i: int| 0 <= i < ps.len() implies name_ok((#[trigger] pnt(ps)[i]).0) && !(pnt(ps)[i].1 is Unit) by {
        assert(sym_ok(ps[i].0));
        assert(good(ty_of(ps[i].1)));
    }
}
pub proof fn lemma_pmap(ps: Seq<(Seq<char>, Tree)>, vs: Seq<Value>, k: int)
    requires 0 <= k <= ps.len(),
    ensures
        forall|s: Seq<char>| #[trigger] pmap(ps, vs, k).contains_key(s) <==> pset(ps, k).contains(s),
        forall|s: Seq<char>| #[trigger] pmap(ps, vs, k).contains_key(s) ==> exists|i: int| 0 <= i < k && ps[i].0 == s && pmap(ps, vs, k)[s] == #[trigger] vs[i],
    decreases k,
{
    if k > 0 {
        lemma_pmap(ps, vs, k - 1);
        assert forall|s: Seq<char>| #[trigger] pmap(ps, vs, k).contains_key(s) <==> pset(ps, k).contains(s) by {
            assert(pmap(ps, vs, k - 1).contains_key(s) <==> pset(ps, k - 1).contains(s));
        }
        assert forall|s: Seq<char>| #[trigger] pmap(ps, vs, k).contains_key(s) implies exists|i: int| 0 <= i < k && ps[i].0 == s && pmap(ps, vs, k)[s] == #[trigger] vs[i] by {
            if s == ps[k - 1].0 { assert(pmap(ps, vs, k)[s] == vs[k - 1]); }
            else {
                assert(pmap(ps, vs, k - 1).contains_key(s));
                let i = choose|i: int| 0 <= i < k - 1 && ps[i].0 == s && pmap(ps, vs, k - 1)[s] == #[trigger] vs[i];
                assert(vs[i] == pmap(ps, vs, k)[s]);
            }
        }
    }
}
pub proof fn lemma_puniq(gv: Map<Seq<char>, Value>, s: Set<Seq<char>>, ps: Seq<(Seq<char>, Tree)>, k: int)
    requires 0 <= k < ps.len(),
    ensures puniq(gv, s, ps, k + 1) == (puniq(gv, s, ps, k) && !gv.contains_key(ps[k].0) && !s.union(pset(ps, k)).contains(ps[k].0)),
{}
pub proof fn lemma_made_start(f0: FM, lb: Map<Seq<char>, BI>, bl: Seq<Tree>)
    requires
        f0.bbs == Map::<BasicBlock, BM>::empty(), f0.order == Seq::<BasicBlock>::empty(), f0.body == Map::<BasicBlock, Seq<Value>>::empty(), lb == Map::<Seq<char>, BI>::empty(),
    ensures made(f0, f0, lb, bl, 0),
{ reveal(made); assert(bl.take(0) =~= Seq::empty()); }
/// one more block is made
pub proof fn lemma_made_push(f0: FM, fm: FM, lb: Map<Seq<char>, BI>, bl: Seq<Tree>, k: int, f1: FM, x: BasicBlock, i: BI)
    requires
        made(f0, fm, lb, bl, k), 0 <= k < bl.len(), bdistinct(bl), linv(fm, lb), wf_block(bl[k]), pdefs_den(fm, lb, bl, k),
        !fm.bbs.contains_key(x), f1 == (FM { vals: f1.vals, bbs: f1.bbs, order: fm.order.push(x), body: fm.body.insert(x, Seq::empty()), ..fm }),
        f1.bbs == fm.bbs.insert(x, BM { name: kept(bname(bl[k])), pars: f1.bbs[x].pars }),
        new_pars(fm.vals, f1.vals, f1.bbs[x].pars, pnt(bpars(bl[k])), true),
        i == (BI { bb: x, preds: Seq::empty(), defs: pmap(bpars(bl[k]), f1.bbs[x].pars, bpars(bl[k]).len() as int) }),
    ensures
        made(f0, f1, lb.insert(bname(bl[k]), i), bl, k + 1), linv(f1, lb.insert(bname(bl[k]), i)), pdefs_den(f1, lb.insert(bname(bl[k]), i), bl, k + 1), sub(fm.vals, f1.vals),
{
    reveal(made); reveal(bdistinct);
    broadcast use lemma_bhas_push;
    let t = bl[k];
    let ps = bpars(t);
    let pars = f1.bbs[x].pars;
    let l1 = lb.insert(bname(t), i);
    lemma_pars_ok(ps);
    lemma_pmap(ps, pars, ps.len() as int);
    assert(!fm.order.contains(x));
    assert(bl.take(k + 1) =~= bl.take(k).push(t));
    assert(f1.order.contains(x)) by { assert(f1.order[k] == x); }
    assert forall|y: BasicBlock| #[trigger] f1.order.contains(y) <==> fm.order.contains(y) || y == x by {
        if fm.order.contains(y) { let j = fm.order.index_of(y); assert(f1.order[j] == y); }
    }
    assert forall|j: int| 0 <= j < pars.len() implies f1.vals.contains_key(#[trigger] pars[j]) && f1.vals[pars[j]] == (VM { ty: ty_of(ps[j].1), name: kept(ps[j].0), kind: Kd::BArg(j) }) && good(f1.vals[pars[j]].ty) by {
        assert(good(ty_of(ps[j].1)));
        assert(pnt(ps)[j].1 == ty_of(ps[j].1));
    }
    assert(bb_den(f1, i, t));
    assert forall|j: int| 0 <= j < k implies l1[bname(#[trigger] bl[j])] == lb[bname(bl[j])] && bb_den(f1, lb[bname(bl[j])], bl[j]) && lb[bname(bl[j])].bb == f1.order[j] && lb[bname(bl[j])].bb != x by {
        assert(bname(bl[j]) != bname(bl[k]));
        assert(bb_den(fm, lb[bname(bl[j])], bl[j]));
    }
    assert forall|n: Seq<char>| #[trigger] l1.contains_key(n) implies bi_ok(f1, l1, l1[n]) by {
        if n == bname(t) {
            assert forall|s: Seq<char>| #[trigger] i.defs.contains_key(s) implies f1.vals.contains_key(i.defs[s]) && good(f1.vals[i.defs[s]].ty) by {
                let j = choose|j: int| 0 <= j < ps.len() && ps[j].0 == s && i.defs[s] == #[trigger] pars[j];
                assert(f1.vals.contains_key(pars[j]));
            }
        } else { assert(bi_ok(fm, lb, lb[n])); }
    }
    assert forall|y: BasicBlock| #[trigger] f1.bbs.contains_key(y) implies bm_ok(f1, f1.bbs[y]) by { if y != x { assert(bm_ok(fm, fm.bbs[y])); } }
    assert forall|y: BasicBlock| #[trigger] f1.body.contains_key(y) implies body_ok(f1, f1.body[y]) by { if y != x { assert(body_ok(fm, fm.body[y])); } }
}
pub proof fn lemma_pdefs_start(fm: FM, lb: Map<Seq<char>, BI>, bl: Seq<Tree>)
    ensures pdefs_den(fm, lb, bl, 0),
{}
/// what is there is not made again
pub proof fn lemma_made_fresh(f0: FM, fm: FM, lb: Map<Seq<char>, BI>, bl: Seq<Tree>, k: int)
    requires made(f0, fm, lb, bl, k),
    ensures forall|x: BasicBlock| #[trigger] fm.order.contains(x) ==> fm.bbs.contains_key(x), fm == (FM { vals: fm.vals, bbs: fm.bbs, order: fm.order, body: fm.body, ..f0 }),
{ reveal(made); }
pub proof fn lemma_huniq(gv: Map<Seq<char>, Value>, a: Set<Seq<char>>, bl: Seq<Tree>, k: int)
    requires 0 <= k < bl.len(),
    ensures
        huniq(gv, a, bl, k + 1) == (huniq(gv, a, bl, k) && puniq(gv, a.union(bset(bl, k)), bpars(bl[k]), bpars(bl[k]).len() as int)),
        a.union(bset(bl, k + 1)) == a.union(bset(bl, k)).union(pset(bpars(bl[k]), bpars(bl[k]).len() as int)),
{
    assert(a.union(bset(bl, k + 1)) =~= a.union(bset(bl, k)).union(pset(bpars(bl[k]), bpars(bl[k]).len() as int)));
    if huniq(gv, a, bl, k + 1) {
        assert forall|i: int| 0 <= i < k implies puniq(gv, a.union(bset(bl, i)), bpars(#[trigger] bl[i]), bpars(bl[i]).len() as int) by {}
        assert(bl[k] == bl[k]);
    }
}
pub proof fn lemma_bset(bl: Seq<Tree>, k: int, j: int, s: Seq<char>)
    requires 0 <= j < k <= bl.len(), pset(bpars(bl[j]), bpars(bl[j]).len() as int).contains(s),
    ensures bset(bl, k).contains(s),
    decreases k,
{ if j < k - 1 { lemma_bset(bl, k - 1, j, s); } }
/// a block that was made
pub proof fn lemma_made_at(f0: FM, fm: FM, lb: Map<Seq<char>, BI>, bl: Seq<Tree>, n: Seq<char>) -> (j: int)
    requires made(f0, fm, lb, bl, bl.len() as int), lb.contains_key(n),
    ensures 0 <= j < bl.len(), bname(bl[j]) == n,
{
    reveal(made);
    assert(bl.take(bl.len() as int) =~= bl);
    choose|j: int| 0 <= j < bl.len() && bname(#[trigger] bl[j]) == n
}
pub proof fn lemma_made_has(f0: FM, fm: FM, lb: Map<Seq<char>, BI>, bl: Seq<Tree>, j: int)
    requires made(f0, fm, lb, bl, bl.len() as int), 0 <= j < bl.len(),
    ensures lb.contains_key(bname(bl[j])),
{
    reveal(made);
    assert(bl.take(bl.len() as int) =~= bl);
    assert(bhas(bl, bname(bl[j])));
}
/// the blocks, what they define, and what always holds
#[verifier::opaque]
pub open spec fn hmid(f0: FM, fm: FM, lb: Map<Seq<char>, BI>, bl: Seq<Tree>, args: Map<Seq<char>, Value>) -> bool {
    made(f0, fm, lb, bl, bl.len() as int) && linv(fm, lb) && defs_den(fm, lb, bl, args, bl.len() as int) && bdistinct(bl)
}
/// the parameters of the function are visible in the entry
pub proof fn lemma_entry(f0: FM, fm: FM, lb: Map<Seq<char>, BI>, bl: Seq<Tree>, args: Map<Seq<char>, Value>, l1: Map<Seq<char>, BI>)
    requires
        made(f0, fm, lb, bl, bl.len() as int), linv(fm, lb), pdefs_den(fm, lb, bl, bl.len() as int), bdistinct(bl), bl.len() > 0,
        l1 == lb.insert(bname(bl[0]), BI { defs: args, ..lb[bname(bl[0])] }),
        forall|s: Seq<char>| #[trigger] args.contains_key(s) ==> f0.vals.contains_key(args[s]) && good(f0.vals[args[s]].ty),
    ensures hmid(f0, fm, l1, bl, args), preds_den(l1, bl, 0),
{
    reveal(made); reveal(bdistinct); reveal(hmid); reveal(preds_den);
    let n0 = bname(bl[0]);
    lemma_made_has(f0, fm, lb, bl, 0);
    assert forall|j: int| 0 <= j < bl.len() implies l1[bname(#[trigger] bl[j])].bb == fm.order[j] && bb_den(fm, l1[bname(bl[j])], bl[j])
        && l1[bname(bl[j])].preds.len() == 0
        && l1[bname(bl[j])].defs == if j == 0 { args } else { pmap(bpars(bl[j]), fm.bbs[l1[bname(bl[j])].bb].pars, bpars(bl[j]).len() as int) } by {
        assert(bb_den(fm, lb[bname(bl[j])], bl[j]));
        if j > 0 { assert(bname(bl[0]) != bname(bl[j])); }
    }
    assert forall|n: Seq<char>| #[trigger] l1.contains_key(n) implies bi_ok(fm, l1, l1[n]) by {
        assert(bi_ok(fm, lb, lb[n]));
        if n == n0 {
            assert forall|s: Seq<char>| #[trigger] l1[n].defs.contains_key(s) implies fm.vals.contains_key(l1[n].defs[s]) && good(fm.vals[l1[n].defs[s]].ty) by { assert(args.contains_key(s)); assert(f0.vals.contains_key(args[s])); }
        }
    }
    assert forall|n: Seq<char>, m: Seq<char>| l1.contains_key(n) implies (#[trigger] l1[n].preds.contains(m) <==> from(bl, 0, m, n)) by {
        let j = lemma_made_at(f0, fm, lb, bl, n);
        assert(l1[bname(bl[j])].preds.len() == 0);
    }
}
/// one more predecessor
pub proof fn lemma_addp(f0: FM, fm: FM, lb: Map<Seq<char>, BI>, bl: Seq<Tree>, args: Map<Seq<char>, Value>, n: Seq<char>, k: int)
    requires hmid(f0, fm, lb, bl, args), 0 <= k < bl.len(),
    ensures ({
        let m = bname(bl[k]);
        let l1 = addp(lb, n, m);
        &&& hmid(f0, fm, l1, bl, args)
        &&& forall|y: Seq<char>| #[trigger] l1.contains_key(y) <==> lb.contains_key(y)
        &&& forall|y: Seq<char>, x: Seq<char>| lb.contains_key(y) ==> (#[trigger] l1[y].preds.contains(x) <==> lb[y].preds.contains(x) || (x == m && y == n))
    }),
{
    reveal(hmid); reveal(made);
    let m = bname(bl[k]);
    let l1 = addp(lb, n, m);
    lemma_made_has(f0, fm, lb, bl, k);
    if lb.contains_key(n) {
        let p = lb[n].preds;
        assert(forall|y: Seq<char>| #[trigger] l1.contains_key(y) <==> lb.contains_key(y));
        assert forall|x: Seq<char>| #[trigger] p.push(m).contains(x) <==> p.contains(x) || x == m by {
            if p.contains(x) { let i = p.index_of(x); assert(p.push(m)[i] == x); }
            assert(p.push(m)[p.len() as int] == m);
            if p.push(m).contains(x) { let i = p.push(m).index_of(x); if i < p.len() { assert(p[i] == x); } }
        }
        assert forall|y: Seq<char>| #[trigger] l1.contains_key(y) implies bi_ok(fm, l1, l1[y]) by { assert(bi_ok(fm, lb, lb[y])); }
        assert forall|j: int| 0 <= j < bl.len() implies l1[bname(#[trigger] bl[j])].bb == fm.order[j] && bb_den(fm, l1[bname(bl[j])], bl[j])
            && l1[bname(bl[j])].defs == lb[bname(bl[j])].defs && l1[bname(bl[j])].bb == lb[bname(bl[j])].bb by {
            assert(bb_den(fm, lb[bname(bl[j])], bl[j]));
        }
    }
}
/// the predecessors after one more block
pub proof fn lemma_preds_step(l0: Map<Seq<char>, BI>, l1: Map<Seq<char>, BI>, bl: Seq<Tree>, k: int)
    requires
        preds_den(l0, bl, k), 0 <= k < bl.len(), forall|y: Seq<char>| #[trigger] l1.contains_key(y) <==> l0.contains_key(y),
        forall|y: Seq<char>, x: Seq<char>| l0.contains_key(y) ==> (#[trigger] l1[y].preds.contains(x) <==> l0[y].preds.contains(x) || (x == bname(bl[k]) && tgt(bl[k], y))),
    ensures preds_den(l1, bl, k + 1),
{
    reveal(preds_den);
    assert forall|n: Seq<char>, m: Seq<char>| l1.contains_key(n) implies (#[trigger] l1[n].preds.contains(m) <==> from(bl, k + 1, m, n)) by {
        assert(l0[n].preds.contains(m) <==> from(bl, k, m, n));
        if from(bl, k, m, n) { let i = choose|i: int| 0 <= i < k && bname(#[trigger] bl[i]) == m && tgt(bl[i], n); assert(bname(bl[i]) == m); }
        if from(bl, k + 1, m, n) { let i = choose|i: int| 0 <= i < k + 1 && bname(#[trigger] bl[i]) == m && tgt(bl[i], n); if i < k { assert(from(bl, k, m, n)); } }
        if m == bname(bl[k]) && tgt(bl[k], n) { assert(from(bl, k + 1, m, n)); }
    }
}
/// when no name is taken twice, a definition is found in one block only
pub proof fn lemma_hclean(f0: FM, b: BV, f: Function, bl: Seq<Tree>, args: Map<Seq<char>, Value>, gv: Map<Seq<char>, Value>)
    requires hmid(f0, b.p.fns[f], b.lb, bl, args), huniq(gv, args.dom(), bl, bl.len() as int), b.ls == args.dom().union(bset(bl, bl.len() as int)),
    ensures clean(b),
{
    reveal(hmid); reveal(bdistinct);
    let fm = b.p.fns[f];
    assert forall|n: Seq<char>, s: Seq<char>| b.lb.contains_key(n) && #[trigger] b.lb[n].defs.contains_key(s) implies b.ls.contains(s) by {
        let j = lemma_made_at(f0, fm, b.lb, bl, n);
        lemma_hdef(f0, fm, b.lb, bl, args, j, s);
        if j > 0 { lemma_bset(bl, bl.len() as int, j, s); } else { assert(b.lb[bname(bl[0])].defs == args); assert(args.contains_key(s)); }
    }
    assert forall|n: Seq<char>, m: Seq<char>, s: Seq<char>| b.lb.contains_key(n) && b.lb.contains_key(m) && #[trigger] b.lb[n].defs.contains_key(s) && #[trigger] b.lb[m].defs.contains_key(s) implies n == m by {
        let j = lemma_made_at(f0, fm, b.lb, bl, n);
        let i = lemma_made_at(f0, fm, b.lb, bl, m);
        lemma_hdef(f0, fm, b.lb, bl, args, j, s);
        lemma_hdef(f0, fm, b.lb, bl, args, i, s);
        if i < j { lemma_hdisj(gv, args.dom(), bl, i, j, s); }
        if j < i { lemma_hdisj(gv, args.dom(), bl, j, i, s); }
    }
}
pub proof fn lemma_hdef(f0: FM, fm: FM, lb: Map<Seq<char>, BI>, bl: Seq<Tree>, args: Map<Seq<char>, Value>, j: int, s: Seq<char>)
    requires hmid(f0, fm, lb, bl, args), 0 <= j < bl.len(), lb[bname(bl[j])].defs.contains_key(s),
    ensures if j == 0 { args.contains_key(s) } else { pset(bpars(bl[j]), bpars(bl[j]).len() as int).contains(s) },
{
    reveal(hmid);
    let ps = bpars(bl[j]);
    assert(lb[bname(bl[j])].defs == if j == 0 { args } else { pmap(ps, fm.bbs[lb[bname(bl[j])].bb].pars, ps.len() as int) });
    lemma_pmap(ps, fm.bbs[lb[bname(bl[j])].bb].pars, ps.len() as int);
}
pub proof fn lemma_pset_at(ps: Seq<(Seq<char>, Tree)>, k: int, s: Seq<char>) -> (i: int)
    requires 0 <= k <= ps.len(), pset(ps, k).contains(s),
    ensures 0 <= i < k, ps[i].0 == s,
    decreases k,
{ if k <= 0 { 0 } else if ps[k - 1].0 == s { k - 1 } else { lemma_pset_at(ps, k - 1, s) } }
pub proof fn lemma_hdisj(gv: Map<Seq<char>, Value>, a: Set<Seq<char>>, bl: Seq<Tree>, i: int, j: int, s: Seq<char>)
    requires huniq(gv, a, bl, bl.len() as int), 0 <= i < j < bl.len(),
        if i == 0 { a.contains(s) } else { pset(bpars(bl[i]), bpars(bl[i]).len() as int).contains(s) },
        pset(bpars(bl[j]), bpars(bl[j]).len() as int).contains(s),
    ensures false,
{
    let ps = bpars(bl[j]);
    assert(puniq(gv, a.union(bset(bl, j)), ps, ps.len() as int));
    let k = lemma_pset_at(ps, ps.len() as int, s);
    assert(ps[k].0 == s);
    if i > 0 { lemma_bset(bl, j, i, s); }
}
pub proof fn lemma_kstart(b: BV, f: Function, s: GlobalState, bbn: Seq<char>, ret: Ty, ts: Seq<Tree>)
    requires kpre(b, f, s, bbn, ret, ts),
    ensures kpost(b, b, f, s, s, bbn, ret, ts, 0),
{
    reveal(kpre); reveal(kpost);
    let fm = b.p.fns[f];
    let x = b.lb[bbn].bb;
    assert(bi_ok(fm, b.lb, b.lb[bbn]));
    assert(fm.body.insert(x, fm.body[x]) =~= fm.body);
    assert(b.p.fns.insert(f, fm) =~= b.p.fns);
    assert(b.lb.insert(bbn, BI { defs: dds(b.lb[bbn].defs, ts, fm.body[x], 0), ..b.lb[bbn] }) =~= b.lb);
    lemma_grow_refl(b, f);
    lemma_grow_sub(b, b, f);
}
pub proof fn lemma_dds(d: Map<Seq<char>, Value>, ts: Seq<Tree>, a: Seq<Value>, b: Seq<Value>, k: int)
    requires forall|i: int| 0 <= i < k ==> #[trigger] a[i] == b[i],
    ensures dds(d, ts, a, k) == dds(d, ts, b, k),
    decreases k,
{ if k > 0 { assert(a[k - 1] == b[k - 1]); lemma_dds(d, ts, a, b, k - 1); } }
/// one more statement
pub proof fn lemma_kstep(b0: BV, b1: BV, b2: BV, b3: BV, f: Function, s0: GlobalState, s1: GlobalState, s2: GlobalState, bbn: Seq<char>, ret: Ty, ts: Seq<Tree>, k: int, r: Result<Value, Error>)
    requires
        kpre(b0, f, s0, bbn, ret, ts), kpost(b0, b1, f, s0, s1, bbn, ret, ts, k), 0 <= k < ts.len(), spost(b1, b2, f, s1, s2, bbn, ret, ts[k], r),
        b3 == match r { Ok(v) => pushed(b2, f, b2.lb[bbn].bb, v), Err(_) => b2 },
    ensures kpost(b0, b3, f, s0, s2, bbn, ret, ts, k + 1),
{
    reveal(kpre); reveal(kpost);
    let (f0, f1, f2, f3) = (b0.p.fns[f], b1.p.fns[f], b2.p.fns[f], b3.p.fns[f]);
    let x = b0.lb[bbn].bb;
    assert(b2.lb[bbn].bb == x) by { assert(b0.lb.contains_key(bbn)); assert(b1.lb.contains_key(bbn)); }
    assert(bi_ok(f2, b2.lb, b2.lb[bbn]));
    assert(f2 == FM { vals: f2.vals, ..f1 });
    match r {
        Ok(v) => { assert(f3.body =~= f0.body.insert(x, f1.body[x].push(v))); }
        Err(_) => { assert(f3.body =~= f0.body.insert(x, f1.body[x])); }
    }
    assert(b3.p.fns =~= b0.p.fns.insert(f, f3));
    assert(inv(b3, f)) by {
        assert forall|n: Seq<char>| #[trigger] b3.lb.contains_key(n) implies bi_ok(f3, b3.lb, b3.lb[n]) by { assert(bi_ok(f2, b2.lb, b2.lb[n])); }
        assert forall|y: BasicBlock| #[trigger] f3.bbs.contains_key(y) implies bm_ok(f3, f3.bbs[y]) by { assert(bm_ok(f2, f2.bbs[y])); }
        assert forall|y: BasicBlock| #[trigger] f3.body.contains_key(y) implies body_ok(f3, f3.body[y]) by { assert(body_ok(f2, f2.body[y])); }
        assert(env(b3.p).ftys =~= env(b2.p).ftys);
    }
    let (e0, e1, e3) = (le(b0, f), le(b1, f), le(b3, f));
    assert(e3 == le(b2, f)) by { assert(env(b3.p).ftys =~= env(b2.p).ftys); }
    assert forall|n: Seq<char>| #[trigger] b0.lb.contains_key(n) implies b3.lb[n].bb == b0.lb[n].bb && b3.lb[n].preds == b0.lb[n].preds by { assert(b1.lb.contains_key(n)); }
    if s2.err_num == 0 {
        let v = r->Ok_0;
        let (d1, d3) = (f1.body[x], f3.body[x]);
        assert(d3 == d1.push(v));
        lemma_esub_trans(e0, e1, e3);
        assert forall|i: int| 0 <= i < k + 1 implies stmt_den(e3, bbn, ret, ts[i], #[trigger] d3[i]) by {
            if i < k {
                assert(d3[i] == d1[i]);
                assert(stmt_den(e1, bbn, ret, ts[i], d1[i]));
                lemma_stmt_mono(e1, e3, bbn, ret, ts[i], d1[i]);
            }
        }
        lemma_dds(b0.lb[bbn].defs, ts, d1, d3, k);
        assert(b3.lb =~= b0.lb.insert(bbn, BI { defs: dds(b0.lb[bbn].defs, ts, d3, k + 1), ..b0.lb[bbn] }));
    }
    if s0.err_num == 0 && s2.err_num > 0 && s1.err_num == 0 {
        assert(stuck_at(e0, e1, b0.ls, bbn, ret, ts, f1.body[x]));
    }
}
pub broadcast proof fn lemma_gagg(p0: PM, p1: PM, v: Value, ty: Ty, ts: Seq<Tree>, base: Ty, vs: Seq<Value>)
    requires #[trigger] pnew(p0, p1, v, ty, Kd::Agg(vs)), #[trigger] inits_den(p0.gvals, ts, base, vs),
    ensures inits_den(p1.gvals, ts, base, vs),
{ assert(gsub(p0.gvals, p1.gvals)); lemma_ginits_mono(p0.gvals, p1.gvals, ts, base, vs); }
pub proof fn lemma_ginits_mono(v0: Map<Value, VM>, v1: Map<Value, VM>, ts: Seq<Tree>, ty: Ty, vs: Seq<Value>)
    requires gsub(v0, v1), inits_den(v0, ts, ty, vs),
    ensures inits_den(v1, ts, ty, vs),
{
    assert forall|i: int| 0 <= i < ts.len() implies init_den(v1, #[trigger] ts[i], ty, vs[i]) by { lemma_init_mono(v0, v1, ts[i], ty, vs[i]); }
}
/// the function is made, with its parameters and its empty blocks
pub proof fn lemma_fstart(b0: BV, bh: BV, b1: BV, f: Function, n: Seq<char>, ps: Seq<(Seq<char>, Tree)>, ret: Ty, bs: Seq<Tree>, bl: Seq<Tree>, s1: GlobalState, s2: GlobalState)
    requires
        fshape(b0, bh, f, n), fresh_fun(bh.p.fns[f], n, pnt(ps), ret), list_den(bs, bl),
        hpost(bh, b1, f, bl, fargs(bh.p.fns[f], ps), s1, s2),
    ensures
        s2.after(s1), s2.err_num == s1.err_num ==> clean(b1),
        wst(b0, b1, f, n, bl, 0), s2.err_num == s1.err_num ==> fst(b1, f, n, ps, ret, bl, 0),
        (s2.err_num == s1.err_num) == huniq(b0.gv, pset(ps, ps.len() as int), bl, bl.len() as int),
{
    reveal(wst); reveal(fst); reveal(made); reveal(list_den); reveal(hpost);
    let (f0, f1) = (bh.p.fns[f], b1.p.fns[f]);
    let args = fargs(f0, ps);
    let len = bl.len() as int;
    lemma_pmap(ps, f0.pars, ps.len() as int);
    assert(args.dom() =~= pset(ps, ps.len() as int)) by {
        assert forall|s: Seq<char>| args.dom().contains(s) == pset(ps, ps.len() as int).contains(s) by { assert(args.contains_key(s) <==> pset(ps, ps.len() as int).contains(s)); }
    }
    assert(b1.p.fns =~= b0.p.fns.insert(f, f1));
    assert(bl.take(len) =~= bl);
    assert(f1 == FM { vals: f1.vals, bbs: f1.bbs, order: f1.order, body: f1.body, ..f0 });
    assert forall|k: int| 0 <= k < len implies b1.lb[bname(#[trigger] bl[k])].bb == f1.order[k] && f1.body[f1.order[k]].len() == 0 by {
        assert(f1.order.contains(f1.order[k]));
        assert(f1.body.contains_key(f1.order[k]));
    }
    assert(fpars(f1, ps)) by {
        assert forall|k: int| 0 <= k < ps.len() implies f1.vals.contains_key(#[trigger] f1.pars[k]) && f1.vals[f1.pars[k]] == (VM { ty: ty_of(ps[k].1), name: kept(ps[k].0), kind: Kd::FArg(k) }) by {
            assert(f0.vals.contains_key(f0.pars[k]));
            assert(pnt(ps)[k] == (kept(ps[k].0), ty_of(ps[k].1)));
        }
    }
    assert forall|k: int| 0 <= k < len implies #[trigger] blk_at(b1, f, ps, ret, bl, k, 0) by {
        assert(bb_den(f1, b1.lb[bname(bl[k])], bl[k]));
        assert(b1.lb[bname(bl[k])].defs == if k == 0 { args } else { pmap(bpars(bl[k]), f1.bbs[b1.lb[bname(bl[k])].bb].pars, bpars(bl[k]).len() as int) });
    }
}
/// one more block is built: where the blocks are
pub proof fn lemma_fstep_w(b0: BV, b: BV, b1: BV, f: Function, n: Seq<char>, bl: Seq<Tree>, j: int, s: GlobalState, s1: GlobalState, ret: Ty)
    requires
        wst(b0, b, f, n, bl, j), 0 <= j < bl.len(), bdistinct(bl),
        kpost(b, b1, f, s, s1, bname(bl[j]), ret, bstmts(bl[j]), bstmts(bl[j]).len() as int),
    ensures
        wst(b0, b1, f, n, bl, j + 1),
{
    reveal(wst); reveal(bdistinct); reveal(kpost);
    let (fm, f1) = (b.p.fns[f], b1.p.fns[f]);
    let len = bl.len() as int;
    let nj = bname(bl[j]);
    let x = b.lb[nj].bb;
    assert(b1.p.fns =~= b0.p.fns.insert(f, f1));
    assert(fshape(b0, b1, f, n));
    assert(bhas(bl, nj));
    assert(b1.lb.dom() =~= b.lb.dom());
    assert forall|m: Seq<char>| #[trigger] b1.lb.contains_key(m) <==> bhas(bl, m) by { assert(b.lb.contains_key(m) <==> b1.lb.contains_key(m)); }
    assert(f1.order == fm.order);
    assert(x == fm.order[j]);
    assert forall|k: int| 0 <= k < len implies b1.lb[bname(#[trigger] bl[k])].bb == f1.order[k] && (k >= j + 1 ==> f1.body[f1.order[k]].len() == 0) by {
        assert(bhas(bl, bname(bl[k])));
        assert(b.lb.contains_key(bname(bl[k])));
        if k >= j + 1 { assert(f1.order[k] != f1.order[j]); assert(f1.body[f1.order[k]] == fm.body[f1.order[k]]); }
    }
}
/// one more block is built
pub proof fn lemma_fstep(b0: BV, b: BV, b1: BV, f: Function, n: Seq<char>, ps: Seq<(Seq<char>, Tree)>, ret: Ty, bl: Seq<Tree>, j: int, s: GlobalState, s1: GlobalState)
    requires
        wst(b0, b, f, n, bl, j), 0 <= j < bl.len(), bdistinct(bl), s.err_num == 0 ==> fst(b, f, n, ps, ret, bl, j),
        kpost(b, b1, f, s, s1, bname(bl[j]), ret, bstmts(bl[j]), bstmts(bl[j]).len() as int),
    ensures
        s1.after(s), s1.err_num == 0 ==> clean(b1), s.err_num == 0 && s1.err_num > 0 ==> stuck_in(b0, b, f, n, ps, ret, bl, j),
        wst(b0, b1, f, n, bl, j + 1), s1.err_num == 0 ==> fst(b1, f, n, ps, ret, bl, j + 1),
{
    lemma_fstep_w(b0, b, b1, f, n, bl, j, s, s1, ret);
    if s1.err_num == 0 { assert(s.err_num == 0) by { reveal(kpost); } lemma_fstep_f(b0, b, b1, f, n, ps, ret, bl, j, s, s1); }
    reveal(kpost); reveal(wst);
}
pub proof fn lemma_fstep_f(b0: BV, b: BV, b1: BV, f: Function, n: Seq<char>, ps: Seq<(Seq<char>, Tree)>, ret: Ty, bl: Seq<Tree>, j: int, s: GlobalState, s1: GlobalState)
    requires
        wst(b0, b, f, n, bl, j), 0 <= j < bl.len(), bdistinct(bl), fst(b, f, n, ps, ret, bl, j), s1.err_num == 0,
        kpost(b, b1, f, s, s1, bname(bl[j]), ret, bstmts(bl[j]), bstmts(bl[j]).len() as int),
    ensures
        fst(b1, f, n, ps, ret, bl, j + 1),
{
    reveal(wst); reveal(fst); reveal(bdistinct); reveal(kpost);
    let (fm, f1) = (b.p.fns[f], b1.p.fns[f]);
    let len = bl.len() as int;
    let nj = bname(bl[j]);
    let x = b.lb[nj].bb;
    let (e, e1) = (le(b, f), le(b1, f));
    assert(bhas(bl, nj));
    assert(bi_ok(fm, b.lb, b.lb[nj]));
    assert(f1.body.dom() =~= fm.body.dom());
    assert(f1.order == fm.order);
    assert forall|k: int| 0 <= k < len implies #[trigger] blk_at(b1, f, ps, ret, bl, k, j + 1) by {
        let nk = bname(bl[k]);
        let (i, i1) = (b.lb[nk], b1.lb[nk]);
        assert(blk_at(b, f, ps, ret, bl, k, j));
        assert(bhas(bl, nk));
        assert(b.lb.contains_key(nk));
        assert(bb_den(f1, i1, bl[k]));
        if k != j {
            assert(nk != nj);
            assert(f1.order[k] != f1.order[j]);
            assert(i1 == i);
            assert(f1.body[i.bb] == fm.body[i.bb]);
            if k < j {
                let (l, ts) = (fm.body[i.bb], bstmts(bl[k]));
                assert forall|q: int| 0 <= q < ts.len() implies stmt_den(e1, nk, ret, ts[q], #[trigger] l[q]) by {
                    assert(stmt_den(e, nk, ret, ts[q], l[q]));
                    lemma_stmt_mono(e, e1, nk, ret, ts[q], l[q]);
                }
            }
        }
    }
    lemma_preds_same(b.lb, b1.lb, bl, len);
}
pub proof fn lemma_preds_same(a: Map<Seq<char>, BI>, b: Map<Seq<char>, BI>, bl: Seq<Tree>, k: int)
    requires preds_den(a, bl, k), lb_same(a, b),
    ensures preds_den(b, bl, k),
{
    reveal(preds_den);
    assert forall|n: Seq<char>, m: Seq<char>| b.contains_key(n) implies (#[trigger] b[n].preds.contains(m) <==> from(bl, k, m, n)) by { assert(a.contains_key(n)); assert(a[n].preds.contains(m) <==> from(bl, k, m, n)); }
}
/// the next block can be built
pub proof fn lemma_fready(b0: BV, b: BV, f: Function, n: Seq<char>, ret: Ty, bs: Seq<Tree>, bl: Seq<Tree>, j: int, s: GlobalState)
    requires
        wst(b0, b, f, n, bl, j), list_den(bs, bl), 0 <= j < bl.len(), s.room(), s.err_num == 0 ==> clean(b), ret is Unit || good(ret),
        forall|i: int| 0 <= i < bs.len() ==> wf_block(#[trigger] bs[i]) && (broken_block(bs[i]) ==> s.err_num > 0),
    ensures kpre(b, f, s, bname(bl[j]), ret, bstmts(bl[j])), wf_block(bl[j]),
{
    reveal(wst); reveal(list_den); reveal(kpre);
    assert(bhas(bl, bname(bl[j])));
    assert(bs.contains(bl[j]));
    let i = choose|i: int| 0 <= i < bs.len() && bs[i] == bl[j];
    assert(wf_block(bs[i]));
    let ts = bstmts(bl[j]);
    assert forall|q: int| 0 <= q < ts.len() implies wf_stmt(#[trigger] ts[q]) && (ts[q] is Error ==> s.err_num > 0) by {
        if ts[q] is Error { assert(broken_block(bs[i])); }
    }
}
pub proof fn lemma_frame(b0: BV, b1: BV, f: Function, n: Seq<char>)
    requires fshape(b0, b1, f, n),
    ensures frame(b0, b1),
{}
/// after the last block
pub proof fn lemma_fdone(b0: BV, b1: BV, f: Function, n: Seq<char>, ps: Seq<(Seq<char>, Tree)>, ret: Ty, bs: Seq<Tree>, bl: Seq<Tree>)
    requires wst(b0, b1, f, n, bl, bl.len() as int),
    ensures fshape(b0, b1, f, n), ginv(b1), frame(b0, b1),
{ reveal(wst); lemma_frame(b0, b1, f, n); }
/// before the blocks are made
pub proof fn lemma_fhead(b0: BV, bh: BV, f: Function, n: Seq<char>, ps: Seq<(Seq<char>, Tree)>, ret: Ty, bs: Seq<Tree>, bl: Seq<Tree>)
    requires
        fshape(b0, bh, f, n), ginv(b0), fresh_fun(bh.p.fns[f], n, pnt(ps), ret), bh.ls == Set::<Seq<char>>::empty(), wf_params(ps), ret is Unit || good(ret), list_den(bs, bl),
        forall|i: int| 0 <= i < bs.len() ==> wf_block(#[trigger] bs[i]),
    ensures
        hpre(bh, f, fargs(bh.p.fns[f], ps)), bl.len() > 0, bdistinct(bl), forall|i: int| 0 <= i < bl.len() ==> wf_block(#[trigger] bl[i]),
{
    reveal(list_den);
    let fm = bh.p.fns[f];
    lemma_pars_ok(ps);
    assert(ginv(bh)) by {
        assert(good(fm.ty)) by { let p = pty(pnt(ps)); assert forall|i: int| #![trigger p[i]] 0 <= i < p.len() implies good(p[i]) by { assert(good(ty_of(ps[i].1))); } }
        assert forall|s: Seq<char>| #[trigger] bh.gf.contains_key(s) implies bh.p.fns.contains_key(bh.gf[s]) && bh.p.fns[bh.gf[s]].ty is Fun && good(bh.p.fns[bh.gf[s]].ty) by {}
    }
    let args = fargs(fm, ps);
    lemma_pmap(ps, fm.pars, ps.len() as int);
    assert forall|s: Seq<char>| #[trigger] args.contains_key(s) implies fm.vals.contains_key(args[s]) && good(fm.vals[args[s]].ty) by {
        let i = choose|i: int| 0 <= i < ps.len() && ps[i].0 == s && args[s] == #[trigger] fm.pars[i];
        assert(fm.vals.contains_key(fm.pars[i]));
        assert(pnt(ps)[i].1 == ty_of(ps[i].1));
        assert(good(ty_of(ps[i].1)));
    }
    assert forall|i: int| 0 <= i < bl.len() implies wf_block(#[trigger] bl[i]) by {
        assert(bs.contains(bl[i]));
        let k = choose|k: int| 0 <= k < bs.len() && bs[k] == bl[i];
        assert(wf_block(bs[k]));
    }
}
pub proof fn lemma_decl(n: Seq<char>, ps: Seq<Tree>, r: Option<Box<Tree>>)
    requires wf_item(Tree::FunDecl(n, ps, r)),
    ensures forall|i: int| 0 <= i < ps.len() ==> wf_ty(#[trigger] ps[i]),
{
    let t = Tree::FunDecl(n, ps, r);
    assert(t->FunDecl_1 == ps);
    assert forall|i: int| 0 <= i < ps.len() implies wf_ty(#[trigger] ps[i]) by { assert(wf_ty(t->FunDecl_1[i])); }
}
} // mod facts
pub use facts::*;

pub mod build {
use super::*;
broadcast use {axiom_node_span, lemma_lbv, lemma_grow_refl, lemma_grow_trans, lemma_grow_le, lemma_grow_sub, lemma_sym_mono, lemma_val_mono, lemma_args_mono, lemma_val_ok_mono, lemma_args_ok_mono, lemma_target_mono, lemma_tys_push, lemma_new, lemma_inits_mono, lemma_args_typed};
impl Builder {
//@ fn front::builder::Builder::generate_type
//@ sig
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
pub fn generate_type(ast: &AstBox) -> (r: Type)
    requires wf_ty(ast.tree()),
    ensures r@ == ty_of(ast.tree()),
    decreases ast.tree(),
//@ entry
    let ghost t = ast.tree();
    proof { axiom_tree(**ast); }
//@ beforeloop 0
    let ghost ps = t->FunType_0;
    proof {
        assert forall|k: int| 0 <= k < ps.len() implies wf_ty(#[trigger] ps[k]) && decreases_to!(t => ps[k]) by {}
    }
//@ loop 0
    invariant
        t == Tree::FunType(ps, otree(ast.ret)), wf_ty(t), vx_it0.s@ == ast.params@, vx_it0.i <= ast.params@.len(), ps == trees(ast.params@),
        forall|k: int| 0 <= k < ps.len() ==> wf_ty(#[trigger] ps[k]) && decreases_to!(t => ps[k]),
        tys(vx_v@) =~= Seq::new(vx_it0.i as nat, |k: int| ty_of(ps[k])), 
    ensures
        tys(vx_v@) =~= tys_of(ps),
    decreases ast.params@.len() - vx_it0.i,
//@ loopstart 0
    let ghost i0 = vx_it0.i as int;
    let ghost vv = vx_v@;
//@ body 0
    proof { assert(ps[i0] == vx_a.tree()); assert(decreases_to!(t => ps[i0])); }
//@ bodyend 0
    proof { assert(vx_v@ == vv.push(vx_v@.last())); assert(tys(vx_v@) =~= tys(vv).push(ty_of(ps[i0]))); }
//@ afterloop 0
    proof { assert(tys_of(ps) =~= ty_of(t)->Fun_0); }
//@ end
//@ fn front::builder::Builder::generate_local_symbol
    requires linv(fm, self.v().lb), self.v().lb.contains_key(bb_name@),
    ensures match r {
        Some(v) => found(self.v().lb, bb_name@, symbol@, v),
        None => none_in(self.v().lb, old(visited_bbs)@, final(visited_bbs)@, symbol@) && final(visited_bbs)@.contains(bb_name@),
    },
    decreases self.v().lb.dom().difference(old(visited_bbs)@).len(),
//@ sig
fn generate_local_symbol(&self, visited_bbs: &mut SSet, bb_name: &String, symbol: &String, Ghost(fm): Ghost<FM>) -> (r: Option<Value>)
//@ rule self.generate_local_symbol(__a, __b, __c) => self.generate_local_symbol(__a, __b, __c, Ghost(fm))
//@ entry
    let ghost lb = self.v().lb;
    let ghost v0 = visited_bbs@;
    let ghost n = bb_name@;
    proof {
        assert(lbv(self.local_bbs@)[n] == bi(self.local_bbs@[n]));
        assert(reach_n(lb, n, n, 0)); assert(reach(lb, n, n));
        if !v0.contains(n) { lemma_smaller(lb.dom(), v0, v0.insert(n), n); }
    }
//@ loop 0
    invariant_except_break
        vx_r is None,
    invariant
        vx_it0.s@ == bb_info.preds@, vx_it0.i <= bb_info.preds@.len(), lb == self.v().lb, linv(fm, lb), lb.contains_key(n), lb[n] == bi(*bb_info),
        !v0.contains(n), n == bb_name@, lb.dom().difference(v0.insert(n)).len() < lb.dom().difference(v0).len(), bi_ok(fm, lb, lb[n]),
        v0 == old(visited_bbs)@,
        vx_r is Some ==> found_pred(lb, n, symbol@, vx_r->0),
        vx_r is None ==> none_in(lb, v0.insert(n), visited_bbs@, symbol@) && forall|k: int| 0 <= k < vx_it0.i ==> visited_bbs@.contains(#[trigger] lb[n].preds[k]),
    ensures
        vx_r is None ==> vx_it0.i == bb_info.preds@.len(),
    decreases bb_info.preds@.len() - vx_it0.i,
//@ loopstart 0
    let ghost i0 = vx_it0.i as int;
    let ghost va = visited_bbs@;
    proof {
        if i0 < bb_info.preds@.len() { assert(lb[n].preds[i0] == bb_info.preds@[i0]@); assert(lb.contains_key(lb[n].preds[i0])); }
        lemma_diff(lb.dom(), v0.insert(n), visited_bbs@);
    }
//@ bodyend 0
    proof { lemma_none_trans(lb, v0.insert(n), va, visited_bbs@, symbol@); }
//@ afterloop 0
    proof { if vx_r is Some { lemma_step(lb, n, symbol@, vx_r->0); } }
//@ end
//@ fn front::builder::Builder::generate_symbol
    requires span.ordered(), gpre(self.v(), f, bb_name@, *old(vx_st)),
    ensures match r {
        Ok(v) => *final(vx_st) == *old(vx_st) && sym_den(le(self.v(), f), bb_name@, symbol@, v) && vty(le(self.v(), f), v) is Some && good(vty(le(self.v(), f), v)->0),
        Err(_) => final(vx_st).plus_error(*old(vx_st)) && final(vx_st).room() && forall|v: Value| !sym_den(le(self.v(), f), bb_name@, symbol@, v),
    },
//@ sig
fn generate_symbol(&self, span: &Span, bb_name: &String, symbol: &String, Ghost(f): Ghost<Function>, vx_st: &mut GlobalState) -> (r: Result<Value, Error>)
//@ rule __e.into() => __e
//@ rule self.generate_local_symbol(__a, __b, __c) => self.generate_local_symbol(__a, __b, __c, Ghost(self.v().p.fns[f]))
//@ exit
    proof {
        let b = self.v();
        if vx_ret is Err { lemma_nowhere(b.lb, visited_bbs@, bb_name@, symbol@); }
        assert(bi_ok(b.p.fns[f], b.lb, b.lb[bb_name@]));
        assert forall|q: Seq<char>| b.lb.contains_key(q) implies #[trigger] bi_ok(b.p.fns[f], b.lb, b.lb[q]) by {}
    }
//@ end
//@ fn front::builder::Builder::dfg_mut
    requires old(self).v().p.fns.contains_key(func),
    ensures
        r.dm() == dmof(old(self).v(), func), r.env() == env(old(self).v().p),
        final(self).v() == withd(old(self).v(), func, final(r).dm()),
//@ end
//@ fn front::builder::Builder::value_ty
    requires inv(self.v(), func), vty(le(self.v(), func), value) is Some,
    ensures Some(r@) == vty(le(self.v(), func), value),
//@ end
//@ fn front::builder::Builder::bb_params_ty
    requires inv(self.v(), func), self.v().p.fns[func].bbs.contains_key(bb),
    ensures tys(r@) == par_tys(self.v().p.fns[func].vals, self.v().p.fns[func].bbs[bb].pars), goods(tys(r@)),
//@ exit
    proof { assert(bm_ok(self.v().p.fns[func], self.v().p.fns[func].bbs[bb])); }
//@ loop 0
    invariant
        inv(self.v(), func), self.v().p.fns[func].bbs.contains_key(bb), vx_it0.s@ == self.v().p.fns[func].bbs[bb].pars, vx_it0.i <= vx_it0.s@.len(),
        tys(vx_v@) =~= par_tys(self.v().p.fns[func].vals, vx_it0.s@.take(vx_it0.i as int)),
    ensures
        tys(vx_v@) =~= par_tys(self.v().p.fns[func].vals, self.v().p.fns[func].bbs[bb].pars),
    decreases vx_it0.s@.len() - vx_it0.i,
//@ loopstart 0
    let ghost (i0, ps, vals) = (vx_it0.i as int, vx_it0.s@, self.v().p.fns[func].vals);
    proof { assert(bm_ok(self.v().p.fns[func], self.v().p.fns[func].bbs[bb])); assert(ps.take(ps.len() as int) =~= ps); }
//@ bodyend 0
    proof { assert(par_tys(vals, ps.take(i0 + 1)) =~= par_tys(vals, ps.take(i0)).push(vals[ps[i0]].ty)); }
//@ end
//@ fn front::builder::Builder::generate_local_init
    requires inv(old(self).v(), func), old(vx_st).room(), wf_init(ast.tree()), good(ty@),
    ensures
        gpost(old(self).v(), final(self).v(), func, *old(vx_st), *final(vx_st)),
        match r {
            Ok(v) => *final(vx_st) == *old(vx_st) && init_den(final(self).v().p.fns[func].vals, ast.tree(), ty@, v),
            Err(_) => bad(*old(vx_st), *final(vx_st), init_ok(ast.tree(), ty@)),
        },
    decreases ast.tree(),
//@ sig
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
pub fn generate_local_init(&mut self, func: Function, ty: &Type, ast: &AstBox, vx_st: &mut GlobalState) -> (r: Result<Value, Error>)
//@ entry
    let ghost t = ast.tree();
    let ghost b0 = self.v();
    let ghost s0 = *vx_st;
    proof { axiom_tree(**ast); }
//@ loop 0
    invariant_except_break
        vx_r is None,
    invariant
        vx_it0.s@ == agg.elems@, vx_it0.i <= agg.elems@.len(), t == Tree::Aggregate(trees(agg.elems@)), wf_init(t),
        gpost(b0, self.v(), func, s0, *vx_st),
        vx_v@.len() == if vx_r is None { vx_it0.i as int } else { vx_it0.i - 1 },
        inits_den(self.v().p.fns[func].vals, trees(agg.elems@).take(vx_v@.len() as int), elem_ty@, vx_v@),
        vx_r is None ==> *vx_st == s0,
        vx_r is Some ==> vx_it0.i > 0 && bad(s0, *vx_st, init_ok(trees(agg.elems@)[vx_it0.i - 1], elem_ty@)),
    ensures
        vx_r is None ==> vx_it0.i == agg.elems@.len(),
    decreases agg.elems@.len() - vx_it0.i,
//@ beforeloop 0
    let ghost ts = trees(agg.elems@);
    proof { assert(t == Tree::Aggregate(ts)); assert(ts.take(0) =~= Seq::empty()); assert(good(elem_ty@)); assert(!(elem_ty@ is Unit)); }
//@ loopstart 0
    let ghost (i0, b1, vv) = (vx_it0.i as int, self.v(), vx_v@);
//@ body 0
    proof { assert(e.tree() == ts[i0]); lemma_agg_part(t, ts, i0); }
//@ bodyend 0
    proof {
        lemma_inits_mono(b1.p.fns[func].vals, self.v().p.fns[func].vals, ts.take(i0), elem_ty@, vv);
        assert(ts.take(i0 + 1) =~= ts.take(i0).push(ts[i0]));
    }
//@ afterloop 0
    proof {
        assert(ts.take(ts.len() as int) =~= ts);
        if vx_r is None && ts.len() > 0 { lemma_agg(self.v().p.fns[func].vals, env(self.v().p).gvals, ts, elem_ty@, vx_v@); }
    }
//@ end
//@ fn front::builder::Builder::generate_value
    requires gpre(old(self).v(), func, bb_name@, *old(vx_st)), wf_val(ast.tree()), good(ty@),
    ensures
        gpost(old(self).v(), final(self).v(), func, *old(vx_st), *final(vx_st)),
        match r {
            Ok(v) => *final(vx_st) == *old(vx_st) && val_den(le(final(self).v(), func), bb_name@, ast.tree(), ty@, v),
            Err(_) => bad(*old(vx_st), *final(vx_st), val_ok(le(old(self).v(), func), bb_name@, ast.tree(), ty@)),
        },
//@ sig
pub fn generate_value(&mut self, func: Function, bb_name: &String, ty: &Type, ast: &AstBox, vx_st: &mut GlobalState) -> (r: Result<Value, Error>)
//@ entry
    proof { axiom_tree(**ast); }
//@ end
//@ fn front::builder::Builder::generate_bb
    requires span.ordered(), old(vx_st).room(),
    ensures match r {
        Ok(x) => *final(vx_st) == *old(vx_st) && self.v().lb.contains_key(bb_name@) && x == self.v().lb[bb_name@].bb,
        Err(_) => final(vx_st).plus_error(*old(vx_st)) && final(vx_st).room() && !self.v().lb.contains_key(bb_name@),
    },
//@ sig
pub fn generate_bb(&self, span: &Span, bb_name: &String, vx_st: &mut GlobalState) -> (r: Result<BasicBlock, Error>)
//@ rule __e.map(|__p| __b) => match __e { Some(__p) => Some(__b), None => None }
//@ end
//@ fn front::builder::Builder::generate_args
    requires span.ordered(), gpre(old(self).v(), func, bb_name@, *old(vx_st)), wf_vals(trees(args@)), goods(tys(args_ty@)),
    ensures
        gpost(old(self).v(), final(self).v(), func, *old(vx_st), *final(vx_st)),
        match r {
            Ok(v) => *final(vx_st) == *old(vx_st) && args_den(le(final(self).v(), func), bb_name@, trees(args@), tys(args_ty@), v@),
            Err(_) => bad(*old(vx_st), *final(vx_st), args_ok(le(old(self).v(), func), bb_name@, trees(args@), tys(args_ty@))),
        },
//@ sig
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
pub fn generate_args(&mut self, func: Function, span: &Span, bb_name: &String, args: &[AstBox], args_ty: &[Type], vx_st: &mut GlobalState) -> (r: Result<Vec<Value>, Error>)
//@ rule __e.map(|__p| __b).collect() => { let mut vx_v = Vec::new(); let mut vx_r = None; for __p in __e { match __b { Ok(vx_x) => { vx_v.push(vx_x); } Err(vx_e) => { vx_r = Some(vx_e); break; } } } match vx_r { None => Ok(vx_v), Some(vx_e) => Err(vx_e) } }
//@ entry
    let ghost (b0, s0, ts, tt, n) = (self.v(), *vx_st, trees(args@), tys(args_ty@), bb_name@);
//@ loop 0
    invariant_except_break
        vx_r is None,
    invariant
        vx_it0.a@ == args@, vx_it0.b@ == args_ty@, vx_it0.i <= args@.len(),
        gpost(b0, self.v(), func, s0, *vx_st),
        vx_v@.len() == if vx_r is None { vx_it0.i as int } else { vx_it0.i - 1 },
        args_den(le(self.v(), func), n, ts.take(vx_v@.len() as int), tt.take(vx_v@.len() as int), vx_v@),
        vx_r is None ==> *vx_st == s0,
        vx_r is Some ==> vx_it0.i > 0 && bad(s0, *vx_st, val_ok(le(b0, func), n, ts[vx_it0.i - 1], tt[vx_it0.i - 1])),
    ensures
        vx_r is None ==> vx_it0.i == args@.len(),
    decreases args@.len() - vx_it0.i,
//@ loopstart 0
    let ghost (i0, b1, vv) = (vx_it0.i as int, self.v(), vx_v@);
    proof { if i0 < ts.len() { assert(ts[i0] == args@[i0].tree()); assert(wf_val(ts[i0])); assert(tt[i0] == args_ty@[i0]@); } }
//@ bodyend 0
    proof {
        lemma_args_mono(le(b1, func), le(self.v(), func), n, ts.take(i0), tt.take(i0), vv);
        assert(ts.take(i0 + 1) =~= ts.take(i0).push(ts[i0]));
        assert(tt.take(i0 + 1) =~= tt.take(i0).push(tt[i0]));
    }
//@ afterloop 0
    proof { assert(ts.take(ts.len() as int) =~= ts); assert(tt.take(tt.len() as int) =~= tt); }
//@ end
//@ fn front::builder::Builder::generate_mem_decl
    requires inv(old(self).v(), func), wf_ty(ast.ty.tree()),
    ensures forall|bbn: Seq<char>, ret: Ty, s: GlobalState| s.room() ==> #[trigger] ipost(old(self).v(), final(self).v(), func, s, s, bbn, ret, Tree::MemDecl(Box::new(ast.ty.tree())), r),
//@ entry
    proof { lemma_good(ast.ty.tree()); }
//@ end
//@ fn front::builder::Builder::generate_load
    requires span.ordered(), gpre(old(self).v(), func, bb_name@, *old(vx_st)),
    ensures ipost(old(self).v(), final(self).v(), func, *old(vx_st), *final(vx_st), bb_name@, Ty::Unit, Tree::Load(ast.symbol@), r),
//@ sig
pub fn generate_load(&mut self, func: Function, span: &Span, bb_name: &String, ast: &ast::Load, vx_st: &mut GlobalState) -> (r: Result<Value, Error>)
//@ end
//@ fn front::builder::Builder::generate_store
    requires span.ordered(), gpre(old(self).v(), func, bb_name@, *old(vx_st)), wf_val(ast.value.tree()),
    ensures ipost(old(self).v(), final(self).v(), func, *old(vx_st), *final(vx_st), bb_name@, Ty::Unit, Tree::Store(Box::new(ast.value.tree()), ast.symbol@), r),
//@ sig
pub fn generate_store(&mut self, func: Function, span: &Span, bb_name: &String, ast: &ast::Store, vx_st: &mut GlobalState) -> (r: Result<Value, Error>)
//@ end
//@ fn front::builder::Builder::generate_get_pointer
    requires span.ordered(), gpre(old(self).v(), func, bb_name@, *old(vx_st)), wf_val(ast.value.tree()),
    ensures ipost(old(self).v(), final(self).v(), func, *old(vx_st), *final(vx_st), bb_name@, Ty::Unit, Tree::GetPointer(ast.symbol@, Box::new(ast.value.tree())), r),
//@ sig
pub fn generate_get_pointer(&mut self, func: Function, span: &Span, bb_name: &String, ast: &ast::GetPointer, vx_st: &mut GlobalState) -> (r: Result<Value, Error>)
//@ end
//@ fn front::builder::Builder::generate_get_element_pointer
    requires span.ordered(), gpre(old(self).v(), func, bb_name@, *old(vx_st)), wf_val(ast.value.tree()),
    ensures ipost(old(self).v(), final(self).v(), func, *old(vx_st), *final(vx_st), bb_name@, Ty::Unit, Tree::GetElementPointer(ast.symbol@, Box::new(ast.value.tree())), r),
//@ sig
pub fn generate_get_element_pointer(&mut self, func: Function, span: &Span, bb_name: &String, ast: &ast::GetElementPointer, vx_st: &mut GlobalState) -> (r: Result<Value, Error>)
//@ entry
    proof { reveal_with_fuel(good, 4); }
//@ end
//@ fn front::builder::Builder::generate_binary_expr
    requires gpre(old(self).v(), func, bb_name@, *old(vx_st)), wf_val(ast.lhs.tree()), wf_val(ast.rhs.tree()),
    ensures ipost(old(self).v(), final(self).v(), func, *old(vx_st), *final(vx_st), bb_name@, Ty::Unit, Tree::BinaryExpr(ast.op, Box::new(ast.lhs.tree()), Box::new(ast.rhs.tree())), r),
//@ sig
pub fn generate_binary_expr(&mut self, func: Function, bb_name: &String, ast: &ast::BinaryExpr, vx_st: &mut GlobalState) -> (r: Result<Value, Error>)
//@ end
//@ fn front::builder::Builder::generate_branch
    requires span.ordered(), gpre(old(self).v(), func, bb_name@, *old(vx_st)), wf_val(ast.cond.tree()), wf_vals(trees(ast.targs@)), wf_vals(trees(ast.fargs@)),
    ensures ipost(old(self).v(), final(self).v(), func, *old(vx_st), *final(vx_st), bb_name@, Ty::Unit, Tree::Branch(Box::new(ast.cond.tree()), ast.tbb@, trees(ast.targs@), ast.fbb@, trees(ast.fargs@)), r),
//@ sig
pub fn generate_branch(&mut self, func: Function, span: &Span, bb_name: &String, ast: &ast::Branch, vx_st: &mut GlobalState) -> (r: Result<Value, Error>)
//@ end
//@ fn front::builder::Builder::generate_jump
    requires span.ordered(), gpre(old(self).v(), func, bb_name@, *old(vx_st)), wf_vals(trees(ast.args@)),
    ensures ipost(old(self).v(), final(self).v(), func, *old(vx_st), *final(vx_st), bb_name@, Ty::Unit, Tree::Jump(ast.target@, trees(ast.args@)), r),
//@ sig
pub fn generate_jump(&mut self, func: Function, span: &Span, bb_name: &String, ast: &ast::Jump, vx_st: &mut GlobalState) -> (r: Result<Value, Error>)
//@ end
//@ fn front::builder::Builder::generate_fun_call
    requires span.ordered(), gpre(old(self).v(), func, bb_name@, *old(vx_st)), wf_vals(trees(ast.args@)),
    ensures ipost(old(self).v(), final(self).v(), func, *old(vx_st), *final(vx_st), bb_name@, Ty::Unit, Tree::FunCall(ast.fun@, trees(ast.args@)), r),
//@ sig
pub fn generate_fun_call(&mut self, func: Function, span: &Span, bb_name: &String, ast: &ast::FunCall, vx_st: &mut GlobalState) -> (r: Result<Value, Error>)
//@ rule __e.clone() => vx_clone_tys(&__e)
//@ entry
    let ghost fty = self.v().p.fns[self.v().gf[ast.fun@]].ty;
    proof { if fty is Fun && good(fty) { assert(goods(fty->Fun_0)); } }
//@ end
//@ fn front::builder::Builder::generate_return
    requires span.ordered(), gpre(old(self).v(), func, bb_name@, *old(vx_st)), ast.value is Some ==> wf_val(ast.value->0.tree()), ret_ty@ is Unit || good(ret_ty@),
    ensures ipost(old(self).v(), final(self).v(), func, *old(vx_st), *final(vx_st), bb_name@, ret_ty@, Tree::Return(otree(ast.value)), r),
//@ sig
pub fn generate_return(&mut self, func: Function, span: &Span, bb_name: &String, ret_ty: &Type, ast: &ast::Return, vx_st: &mut GlobalState) -> (r: Result<Value, Error>)
//@ end
//@ fn front::builder::Builder::generate_inst
    requires gpre(old(self).v(), func, bb_name@, *old(vx_st)), wf_inst(ast.tree()),
    ensures ipost(old(self).v(), final(self).v(), func, *old(vx_st), *final(vx_st), bb_name@, Ty::Unit, ast.tree(), r),
//@ sig
pub fn generate_inst(&mut self, func: Function, bb_name: &String, ast: &AstBox, vx_st: &mut GlobalState) -> (r: Result<Value, Error>)
//@ entry
    proof { axiom_tree(**ast); }
//@ end
//@ fn front::builder::Builder::generate_stmt
    requires gpre(old(self).v(), func, bb_name@, *old(vx_st)), wf_stmt(ast.tree()), ret_ty@ is Unit || good(ret_ty@), ast.tree() is Error ==> old(vx_st).err_num > 0,
    ensures spost(old(self).v(), final(self).v(), func, *old(vx_st), *final(vx_st), bb_name@, ret_ty@, ast.tree(), r),
//@ sig
pub fn generate_stmt(&mut self, func: Function, bb_name: &String, ret_ty: &Type, ast: &AstBox, vx_st: &mut GlobalState) -> (r: Result<Value, Error>)
//@ rule __e.into() => vx_err(__e)
//@ rule self.generate_inst(__a, __b, __c) => { vx_raw!(proof { ba = self.v(); }); let vx_i = self.generate_inst(__a, __b, __c, &mut *vx_st); vx_raw!(proof { b1 = self.v(); s1 = *vx_st; }); vx_i }
//@ entry
    let ghost (b0, s0, t) = (self.v(), *vx_st, ast.tree());
    let ghost mut ba = b0;
    let ghost mut b1 = b0;
    let ghost mut s1 = s0;
    proof { axiom_tree(**ast); }
//@ exit
    proof {
        let e0 = le(b0, func); let e3 = le(self.v(), func);
        match t {
            Tree::SymbolDef(n, i) => {
                if vx_ret is Ok { lemma_define(b0, ba, b1, self.v(), func, s0, s1, bb_name@, ret_ty@, n, *i, vx_ret->Ok_0); }
            }
            _ => { lemma_grow_refl(b0, func); if vx_ret is Ok { assert(dlb(b0.lb, bb_name@, t, vx_ret->Ok_0) =~= b0.lb); } }
        }
    }
//@ end
}
} // mod build
pub mod blocks {
use super::*;
use std::collections::VecDeque;
use vstd::std_specs::vecdeque::*;
broadcast use {axiom_node_span, lemma_qpush, axiom_string_eq, axiom_string_obeys};
impl Builder {
//@ fn front::builder::Builder::get_block_list
    requires bbs@.len() > 0, old(vx_st).room(), forall|i: int| 0 <= i < bbs@.len() ==> wf_block(#[trigger] trees(bbs@)[i]),
    ensures list_den(trees(bbs@), btrees(r@)), final(vx_st).after(*old(vx_st)), (final(vx_st).err_num == old(vx_st).err_num) == list_ok(trees(bbs@), btrees(r@)),
//@ sig
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
pub fn get_block_list<'a>(&self, bbs: &'a [AstBox], vx_st: &mut GlobalState) -> (r: Vec<&'a ast::Block>)
//@ entry
    let ghost (bs, s0) = (trees(bbs@), *vx_st);
    proof { axiom_tree(*bbs@[0]); assert(wf_block(bs[0])); }
//@ loop 0
    invariant
        vx_it0.s@ == bbs@, vx_it0.i <= bbs@.len(), vx_st.after(s0),
        minv(bs, vx_it0.i as int, bb_map@), (vx_st.err_num == s0.err_num) == bdistinct(bs.take(vx_it0.i as int)),
    ensures
        vx_it0.i == bbs@.len(),
    decreases bbs@.len() - vx_it0.i,
//@ beforeloop 0
    proof { assert(bs.take(0) =~= Seq::empty()); reveal(minv); reveal(bdistinct); }
//@ loopstart 0
    let ghost (i0, m0) = (vx_it0.i as int, bb_map@);
    proof { if i0 < bs.len() { axiom_tree(*bbs@[i0]); assert(bs[i0] == bbs@[i0].tree()); assert(wf_block(bs[i0])); } }
//@ bodyend 0
    proof {
        assert(btree(*block) == bs[i0]);
        lemma_map_push(bs, i0, m0, &bb.span, block);
    }
//@ afterloop 0
    proof { assert(bs.take(bs.len() as int) =~= bs); }
//@ beforeloop 1
    proof { assert(btrees(bb_list@) =~= Seq::empty()); lemma_start(bs, queue@); }
//@ loop 1
    invariant
        binv(bs, btrees(bb_list@), queue@, visited@), vx_st.after(s0),
        (vx_st.err_num == s0.err_num) == (bdistinct(bs) && all_tgts_ok(bs, btrees(bb_list@))),
    ensures
        queue@.len() == 0,
    decreases bb_map@.dom().difference(visited@).len(), queue@.len(),
//@ loopstart 1
    let ghost (q0, v0, l0, sl) = (queue@, visited@, btrees(bb_list@), *vx_st);
//@ body 1
    let ghost blk = bb_map@[bb@].1;
    let ghost t = btree(*blk);
    proof {
        lemma_front(bs, bb_map@, l0, q0, v0);
        axiom_tree(*blk.stmts@.last());
        assert(bstmts(t).last() == blk.stmts@.last().tree());
        lemma_tgts_push(bs, l0, t);
        lemma_tgts_of(bs, t);
    }
//@ bodyend 1
    proof {
        if v0.contains(bb@) { lemma_seen(bs, l0, q0, v0); assert(visited@ =~= v0); }
        else {
            assert(btrees(bb_list@) =~= l0.push(t));
            let rest = q0.subrange(1, q0.len() as int);
            let en = bname(bs[0]);
            assert(entry_bb_name@ == en);
            match blk.stmts@.last().kind {
                AstKind::Branch(x) => {
                    let (a, b) = (x.tbb@, x.fbb@);
                    assert(tgt_ok(bs, a) == (a != en && bb_map@.contains_key(a)));
                    assert(tgt_ok(bs, b) == (b != en && bb_map@.contains_key(b)));
                    assert forall|n: Seq<char>| #[trigger] qhas(queue@, n) <==> qhas(rest, n) || (n == a && tgt_ok(bs, a)) || (n == b && tgt_ok(bs, b)) by {}
                    assert forall|n: Seq<char>| #[trigger] tgt(t, n) <==> n == a || n == b by {}
                }
                AstKind::Jump(x) => {
                    let a = x.target@;
                    assert(tgt_ok(bs, a) == (a != en && bb_map@.contains_key(a)));
                    assert forall|n: Seq<char>| #[trigger] qhas(queue@, n) <==> qhas(rest, n) || (n == a && tgt_ok(bs, a)) by {}
                }
                _ => { assert(queue@ == rest); }
            }
            lemma_visit(bs, l0, q0, v0, t, queue@);
        }
    }
//@ afterloop 1
    proof { lemma_done(bs, btrees(bb_list@), queue@, visited@); }
//@ loop 2
    invariant
        vx_st.after(s0), vx_st.err_num == sl2.err_num, spans_in_order(vx_it2.of()),
    decreases vx_it2.left(),
//@ beforeloop 2
    let ghost sl2 = *vx_st;
    proof { assert(spans_in_order(vx_it2.of())) by { reveal(minv); } }
//@ end
}
} // mod blocks
pub mod hdr {
use super::*;
broadcast use {axiom_node_span, lemma_lbv, lemma_strs_push};
#[verifier::external_body]
pub fn vx_to_vec(v: &Vec<Value>) -> (r: Vec<Value>) ensures r@ == v@, { unimplemented!() }
impl BasicBlockInfo {
//@ fn front::builder::BasicBlockInfo::new
    ensures bi(r) == (BI { bb: bb, preds: Seq::empty(), defs: Map::empty() }),
//@ exit
    proof { assert(bi(vx_ret).preds =~= Seq::empty()); }
//@ end
}
impl Builder {
//@ fn front::builder::Builder::init_local_bbs
    requires
        hpre(old(self).v(), func, args@), old(vx_st).room(), bbs@.len() > 0, bdistinct(btrees(bbs@)),
        forall|i: int| 0 <= i < bbs@.len() ==> wf_block(#[trigger] btrees(bbs@)[i]),
    ensures
        hpost(old(self).v(), final(self).v(), func, btrees(bbs@), args@, *old(vx_st), *final(vx_st)),
//@ sig
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
pub fn init_local_bbs(&mut self, func: Function, args: SMap<Value>, bbs: &[&ast::Block], vx_st: &mut GlobalState)
//@ rule __e.to_vec() => vx_to_vec(__e)
//@ entry
    let ghost (b0, s0, bl, a0) = (self.v(), *vx_st, btrees(bbs@), args@);
    let ghost f0 = b0.p.fns[func];
    let ghost gv = b0.gv;
    let ghost al = a0.dom();
    let ghost mut f1 = f0;
    let ghost mut pars = Seq::<Value>::empty();
    let ghost mut bm = b0;
//@ beforeloop 0
    proof {
        assert(self.v().lb =~= Map::empty());
        assert(b0.p.fns.insert(func, f0) =~= b0.p.fns);
        lemma_made_start(f0, self.v().lb, bl);
        lemma_pdefs_start(f0, self.v().lb, bl);
        assert(al.union(bset(bl, 0)) =~= al);
        assert(b0.ls.union(al) =~= al);
    }
//@ loop 0
    invariant
        vx_it0.s@ == bbs@, vx_it0.i <= bbs@.len(), vx_st.after(s0),
        self.v() == within(b0, func, self.v().p.fns[func], self.v().lb, self.v().ls),
        made(f0, self.v().p.fns[func], self.v().lb, bl, vx_it0.i as int), linv(self.v().p.fns[func], self.v().lb), pdefs_den(self.v().p.fns[func], self.v().lb, bl, vx_it0.i as int),
        (vx_st.err_num == s0.err_num) == huniq(gv, al, bl, vx_it0.i as int),
        vx_st.err_num == s0.err_num ==> self.v().ls == al.union(bset(bl, vx_it0.i as int)),
    ensures
        vx_it0.i == bbs@.len(),
    decreases bbs@.len() - vx_it0.i,
//@ loopstart 0
    let ghost (k, bk, sk) = (vx_it0.i as int, self.v(), *vx_st);
    let ghost fk = bk.p.fns[func];
    let ghost t = bl[k];
    let ghost ps = bpars(t);
    proof {
        lemma_made_fresh(f0, fk, bk.lb, bl, k);
        if k < bl.len() { assert(wf_block(btrees(bbs@)[k])); assert(t == btree(*bbs@[k])); lemma_pars_ok(ps); lemma_huniq(gv, al, bl, k); }
    }
//@ beforeloop 1
    proof { assert(nts(vx_v@) =~= pnt(ps.take(0))); }
//@ loop 1
    invariant
        vx_it1.s@ == block.params@, vx_it1.i <= block.params@.len(), nts(vx_v@) == pnt(ps.take(vx_it1.i as int)),
    ensures
        vx_it1.i == block.params@.len(),
    decreases block.params@.len() - vx_it1.i,
//@ loopstart 1
    let ghost (i1, v1) = (vx_it1.i as int, vx_v@);
    proof { if i1 < ps.len() { assert(ps[i1] == (block.params@[i1].0@, block.params@[i1].1.tree())); assert(wf_params(ps)); assert(wf_ty(ps[i1].1)); } }
//@ bodyend 1
    proof { lemma_pnt_push(v1, vx_v@.last(), ps, i1); assert(v1.push(vx_v@.last()) =~= vx_v@); }
//@ afterloop 1
    proof { assert(ps.take(ps.len() as int) =~= ps); }
//@ beforeloop 2
    proof {
        f1 = self.v().p.fns[func];
        pars = f1.bbs[bb].pars;
        assert(self.v().p.fns =~= bk.p.fns.insert(func, f1));
        assert(self.v() == within(bk, func, f1, bk.lb, bk.ls));
        assert(al.union(bset(bl, k)).union(pset(ps, 0)) =~= al.union(bset(bl, k)));
    }
//@ loop 2
    invariant
        vx_it2.a@ == block.params@, vx_it2.b@ == pars, vx_it2.i <= ps.len(), vx_st.after(sk),
        self.v() == (BV { ls: self.v().ls, ..within(bk, func, f1, bk.lb, bk.ls) }), bi(info).bb == bb, bi(info).preds == Seq::<Seq<char>>::empty(),
        info.local_defs@ == pmap(ps, pars, vx_it2.i as int),
        sk.err_num == s0.err_num ==> (vx_st.err_num == sk.err_num) == puniq(gv, al.union(bset(bl, k)), ps, vx_it2.i as int),
        vx_st.err_num == s0.err_num ==> self.v().ls == al.union(bset(bl, k)).union(pset(ps, vx_it2.i as int)),
    ensures
        vx_it2.i == ps.len(),
    decreases ps.len() - vx_it2.i,
//@ loopstart 2
    let ghost (i2, s2, b2) = (vx_it2.i as int, *vx_st, self.v());
    proof { if i2 < ps.len() { assert(ps[i2] == (block.params@[i2].0@, block.params@[i2].1.tree())); lemma_puniq(gv, al.union(bset(bl, k)), ps, i2); } }
//@ bodyend 2
    proof { assert(al.union(bset(bl, k)).union(pset(ps, i2 + 1)) =~= al.union(bset(bl, k)).union(pset(ps, i2)).insert(ps[i2].0)); }
//@ bodyend 0
    proof {
        let i = self.v().lb[bname(t)];
        lemma_made_push(f0, fk, bk.lb, bl, k, f1, bb, i);
        assert(self.v().lb == bk.lb.insert(bname(t), i));
        assert(b0.p.fns.insert(func, fk).insert(func, f1) =~= b0.p.fns.insert(func, f1));
    }
//@ afterloop 0
    proof { bm = self.v(); lemma_made_has(f0, bm.p.fns[func], bm.lb, bl, 0); }
//@ beforeloop 3
    proof { lemma_entry(f0, bm.p.fns[func], bm.lb, bl, a0, self.v().lb); }
//@ loop 3
    invariant
        vx_it3.s@ == bbs@, vx_it3.i <= bbs@.len(),
        self.v() == (BV { lb: self.v().lb, ..bm }),
        hmid(f0, bm.p.fns[func], self.v().lb, bl, a0), preds_den(self.v().lb, bl, vx_it3.i as int),
    ensures
        vx_it3.i == bbs@.len(),
    decreases bbs@.len() - vx_it3.i,
//@ loopstart 3
    let ghost (j, l0) = (vx_it3.i as int, self.v().lb);
    let ghost fm = bm.p.fns[func];
//@ body 3
    let ghost t = bl[j];
    proof {
        assert(wf_block(btrees(bbs@)[j])); assert(t == btree(*bbs@[j]));
        axiom_tree(*block.stmts@.last());
        assert(bstmts(t).last() == block.stmts@.last().tree());
    }
//@ bodyend 3
    proof {
        let m = bname(t);
        match bstmts(t).last() {
            Tree::Branch(_, x, _, y, _) => {
                lemma_addp(f0, fm, l0, bl, a0, x, j);
                lemma_addp(f0, fm, addp(l0, x, m), bl, a0, y, j);
                assert(self.v().lb =~= addp(addp(l0, x, m), y, m));
            }
            Tree::Jump(x, _) => {
                lemma_addp(f0, fm, l0, bl, a0, x, j);
                assert(self.v().lb =~= addp(l0, x, m));
            }
            _ => { assert(self.v().lb =~= l0); }
        }
        lemma_preds_step(l0, self.v().lb, bl, j);
    }
//@ exit
    proof {
        reveal(hmid); reveal(hpost);
        let b1 = self.v();
        if vx_st.err_num == s0.err_num { lemma_hclean(f0, b1, func, bl, a0, gv); }
    }
//@ end
//@ fn front::builder::Builder::build_on_block
    requires kpre(old(self).v(), func, *old(vx_st), ast.name@, ret_ty@, trees(ast.stmts@)),
    ensures kpost(old(self).v(), final(self).v(), func, *old(vx_st), *final(vx_st), ast.name@, ret_ty@, trees(ast.stmts@), ast.stmts@.len() as int),
//@ sig
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
pub fn build_on_block(&mut self, func: Function, ret_ty: &Type, ast: &ast::Block, vx_st: &mut GlobalState)
//@ rule self.generate_stmt(__a, __b, __c, __d) => { let vx_i = self.generate_stmt(__a, __b, __c, __d, &mut *vx_st); vx_raw!(proof { b2 = self.v(); r2 = vx_i; }); vx_i }
//@ entry
    let ghost (b0, s0, ts) = (self.v(), *vx_st, trees(ast.stmts@));
    let ghost mut b2 = b0;
    let ghost mut r2: Result<Value, Error> = arbitrary();
    proof { reveal(kpre); reveal(kpost); lemma_kstart(b0, func, s0, ast.name@, ret_ty@, ts); }
//@ loop 0
    invariant
        vx_it0.s@ == ast.stmts@, vx_it0.i <= ast.stmts@.len(), kpost(b0, self.v(), func, s0, *vx_st, ast.name@, ret_ty@, ts, vx_it0.i as int),
    ensures
        vx_it0.i == ast.stmts@.len(),
    decreases ast.stmts@.len() - vx_it0.i,
//@ loopstart 0
    let ghost (k, b1, s1) = (vx_it0.i as int, self.v(), *vx_st);
    proof {
        assert(b0.lb.contains_key(ast.name@)); assert(b1.lb.contains_key(ast.name@));
        if k < ts.len() { assert(ts[k] == ast.stmts@[k].tree()); assert(wf_stmt(ts[k])); }
    }
//@ bodyend 0
    proof {
        assert(self.v().lb =~= b2.lb);
        lemma_kstep(b0, b1, b2, self.v(), func, s0, s1, *vx_st, ast.name@, ret_ty@, ts, k, r2);
    }
//@ end
}
} // mod hdr
pub mod items {
use super::*;
broadcast use {axiom_node_span, lemma_lbv, lemma_tys_push, lemma_gagg};
/// the blocks by value
pub struct VecIt<T> { pub v: Vec<T>, pub i: Ghost<int> }
impl<T> VxIntoIter for Vec<T> {
    type It = VecIt<T>;
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VecIt<T>) ensures r.v == self, r.i@ == 0, { unimplemented!() }
}
impl<T> VecIt<T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures final(self).v == old(self).v,
            old(self).i@ < old(self).v@.len() ==> r == Some(old(self).v@[old(self).i@]) && final(self).i@ == old(self).i@ + 1,
            old(self).i@ >= old(self).v@.len() ==> r is None && final(self).i@ == old(self).i@,
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_builder() -> (r: Builder)
    ensures r.v() == (BV { p: PM { gvals: Map::empty(), insts: Seq::empty(), fns: Map::empty(), order: Seq::empty() }, gv: Map::empty(), gf: Map::empty(), lb: Map::empty(), ls: Set::empty() }),
{ unimplemented!() }
impl Builder {
//@ fn front::builder::Builder::generate_global_init
    requires ginv(old(self).v()), old(vx_st).room(), wf_init(ast.tree()), good(ty@),
    ensures
        gmid(old(self).v(), final(self).v(), *old(vx_st), *final(vx_st)),
        match r {
            Ok(v) => *final(vx_st) == *old(vx_st) && init_den(final(self).v().p.gvals, ast.tree(), ty@, v),
            Err(_) => bad(*old(vx_st), *final(vx_st), init_ok(ast.tree(), ty@)),
        },
    decreases ast.tree(),
//@ sig
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
pub fn generate_global_init(&mut self, ty: &Type, ast: &AstBox, vx_st: &mut GlobalState) -> (r: Result<Value, Error>)
//@ entry
    let ghost t = ast.tree();
    let ghost b0 = self.v();
    let ghost s0 = *vx_st;
    proof { axiom_tree(**ast); }
//@ loop 0
    invariant_except_break
        vx_r is None,
    invariant
        vx_it0.s@ == agg.elems@, vx_it0.i <= agg.elems@.len(), t == Tree::Aggregate(trees(agg.elems@)), wf_init(t),
        gmid(b0, self.v(), s0, *vx_st),
        vx_v@.len() == if vx_r is None { vx_it0.i as int } else { vx_it0.i - 1 },
        inits_den(self.v().p.gvals, trees(agg.elems@).take(vx_v@.len() as int), elem_ty@, vx_v@),
        vx_r is None ==> *vx_st == s0,
        vx_r is Some ==> vx_it0.i > 0 && bad(s0, *vx_st, init_ok(trees(agg.elems@)[vx_it0.i - 1], elem_ty@)),
    ensures
        vx_r is None ==> vx_it0.i == agg.elems@.len(),
    decreases agg.elems@.len() - vx_it0.i,
//@ beforeloop 0
    let ghost ts = trees(agg.elems@);
    proof { assert(t == Tree::Aggregate(ts)); assert(ts.take(0) =~= Seq::empty()); assert(good(elem_ty@)); assert(!(elem_ty@ is Unit)); }
//@ loopstart 0
    let ghost (i0, b1, vv) = (vx_it0.i as int, self.v(), vx_v@);
//@ body 0
    proof { assert(e.tree() == ts[i0]); lemma_agg_part(t, ts, i0); }
//@ bodyend 0
    proof {
        lemma_ginits_mono(b1.p.gvals, self.v().p.gvals, ts.take(i0), elem_ty@, vv);
        assert(ts.take(i0 + 1) =~= ts.take(i0).push(ts[i0]));
    }
//@ afterloop 0
    proof {
        assert(ts.take(ts.len() as int) =~= ts);
        if vx_r is None && ts.len() > 0 { lemma_agg(self.v().p.gvals, Map::empty(), ts, elem_ty@, vx_v@); }
    }
//@ end
//@ fn front::builder::Builder::build_on_global_def
    requires span.ordered(), ginv(old(self).v()), old(vx_st).room(), wf_item(Tree::GlobalDef(ast.name@, Box::new(ast.value.tree()))),
    ensures item_post(old(self).v(), final(self).v(), *old(vx_st), *final(vx_st), Tree::GlobalDef(ast.name@, Box::new(ast.value.tree()))),
//@ sig
pub fn build_on_global_def(&mut self, span: &Span, ast: &GlobalDef, vx_st: &mut GlobalState)
//@ rule self.generate_global_init(__a, __b) => { let vx_i = self.generate_global_init(__a, __b, &mut *vx_st); vx_raw!(proof { b1 = self.v(); r1 = vx_i; }); vx_i }
//@ entry
    let ghost (b0, s0) = (self.v(), *vx_st);
    let ghost mut b1 = b0;
    let ghost mut r1: Result<Value, Error> = arbitrary();
    let ghost d = ast.value.tree();
    proof { axiom_tree(*ast.value); lemma_good(*(d->GlobalDecl_0)); }
//@ exit
    proof {
        let b3 = self.v();
        if r1 is Ok {
            let v = b3.p.insts.last();
            lemma_init_mono(b1.p.gvals, b3.p.gvals, *(d->GlobalDecl_1), ty_of(*(d->GlobalDecl_0)), r1->Ok_0);
            if vx_st.err_num == 0 { assert(glob_den(b0, b3, ast.name@, *(d->GlobalDecl_0), *(d->GlobalDecl_1), v)); }
        }
    }
//@ end
//@ fn front::builder::Builder::build_on_fun_decl
    requires span.ordered(), ginv(old(self).v()), old(vx_st).room(), wf_item(Tree::FunDecl(ast.name@, trees(ast.params@), otree(ast.ret))),
    ensures item_post(old(self).v(), final(self).v(), *old(vx_st), *final(vx_st), Tree::FunDecl(ast.name@, trees(ast.params@), otree(ast.ret))),
//@ sig
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
pub fn build_on_fun_decl(&mut self, span: &Span, ast: &FunDecl, vx_st: &mut GlobalState)
//@ entry
    let ghost (b0, s0, ps) = (self.v(), *vx_st, trees(ast.params@));
    let ghost ret = rty_of(otree(ast.ret));
    proof {
        lemma_decl(ast.name@, ps, otree(ast.ret));
        assert forall|i: int| 0 <= i < ps.len() implies good(#[trigger] ty_of(ps[i])) by { assert(wf_ty(ps[i])); lemma_good(ps[i]); }
        match otree(ast.ret) { Some(r) => lemma_good(*r), None => {} }
    }
//@ loop 0
    invariant
        vx_it0.s@ == ast.params@, vx_it0.i <= ast.params@.len(), tys(vx_v@) =~= tys_of(ps).take(vx_it0.i as int),
    ensures
        vx_it0.i == ast.params@.len(),
    decreases ast.params@.len() - vx_it0.i,
//@ loopstart 0
    let ghost i0 = vx_it0.i as int;
    proof { if i0 < ps.len() { assert(ps[i0] == ast.params@[i0].tree()); assert(wf_ty(ps[i0])); } }
//@ afterloop 0
    proof {
        assert(tys_of(ps).take(ps.len() as int) =~= tys_of(ps));
        assert forall|i: int| 0 <= i < vx_v@.len() implies !((#[trigger] vx_v@[i])@ is Unit) by { assert(tys(vx_v@)[i] == ty_of(ps[i])); }
    }
//@ exit
    proof {
        let b1 = self.v();
        let f = b1.p.order.last();
        assert(goods(tys_of(ps)));
        assert(fshape(b0, b1, f, ast.name@));
        lemma_frame(b0, b1, f, ast.name@);
    }
//@ end
//@ fn front::builder::Builder::build_on_fun_def
    requires span.ordered(),
        ginv(old(self).v()), old(vx_st).room(), wf_item(Tree::FunDef(ast.name@, ptrees(ast.params@), otree(ast.ret), trees(ast.bbs@))),
        broken(Tree::FunDef(ast.name@, ptrees(ast.params@), otree(ast.ret), trees(ast.bbs@))) ==> old(vx_st).err_num > 0,
    ensures item_post(old(self).v(), final(self).v(), *old(vx_st), *final(vx_st), Tree::FunDef(ast.name@, ptrees(ast.params@), otree(ast.ret), trees(ast.bbs@))),
//@ sig
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
pub fn build_on_fun_def(&mut self, span: &Span, ast: &FunDef, vx_st: &mut GlobalState)
//@ rule __a.iter().zip(__b) => vx_zip(&__a, __b)
//@ rule self.get_block_list(__a) => { let vx_l = self.get_block_list(__a, &mut *vx_st); vx_raw!(proof { bl = btrees(vx_l@); }); vx_l }
//@ rule self.init_local_bbs(__a, __b, __c) => { vx_raw!(proof { bh = self.v(); sh = *vx_st; lemma_fhead(b0, bh, func, n, ps, ret, bs, bl); }); self.init_local_bbs(__a, __b, __c, &mut *vx_st); vx_raw!(proof { lemma_fstart(b0, bh, self.v(), func, n, ps, ret, bs, bl, sh, *vx_st); }); }
//@ entry
    let ghost (b0, s0, ps, bs) = (self.v(), *vx_st, ptrees(ast.params@), trees(ast.bbs@));
    let ghost (n, ret) = (ast.name@, rty_of(otree(ast.ret)));
    let ghost mut bl = Seq::<Tree>::empty();
    let ghost mut bh = b0;
    let ghost mut sh = s0;
    proof {
        match otree(ast.ret) { Some(r) => lemma_good(*r), None => {} }
        lemma_pars_ok(ps);
    }
//@ beforeloop 0
    proof { assert(nts(vx_v@) =~= pnt(ps.take(0))); }
//@ loop 0
    invariant
        vx_it0.s@ == ast.params@, vx_it0.i <= ast.params@.len(), nts(vx_v@) == pnt(ps.take(vx_it0.i as int)),
    ensures
        vx_it0.i == ast.params@.len(),
    decreases ast.params@.len() - vx_it0.i,
//@ loopstart 0
    let ghost (i0, v0) = (vx_it0.i as int, vx_v@);
    proof { if i0 < ps.len() { assert(ps[i0] == (ast.params@[i0].0@, ast.params@[i0].1.tree())); assert(wf_ty(ps[i0].1)); } }
//@ bodyend 0
    proof { lemma_pnt_push(v0, vx_v@.last(), ps, i0); assert(v0.push(vx_v@.last()) =~= vx_v@); }
//@ afterloop 0
    proof { assert(ps.take(ps.len() as int) =~= ps); }
//@ loop 1
    invariant
        vx_it1.a@ == ast.params@, vx_it1.b@ == self.v().p.fns[func].pars, vx_it1.i <= ps.len(), vx_st.after(s0),
        args@ == pmap(ps, self.v().p.fns[func].pars, vx_it1.i as int),
        (vx_st.err_num == s0.err_num) == puniq(b0.gv, Set::empty(), ps, vx_it1.i as int),
    ensures
        vx_it1.i == ps.len(),
    decreases ps.len() - vx_it1.i,
//@ loopstart 1
    let ghost i1 = vx_it1.i as int;
    proof {
        if i1 < ps.len() {
            assert(ps[i1] == (ast.params@[i1].0@, ast.params@[i1].1.tree())); lemma_puniq(b0.gv, Set::empty(), ps, i1);
            lemma_pmap(ps, self.v().p.fns[func].pars, i1);
            assert(Set::empty().union(pset(ps, i1)) =~= pset(ps, i1));
        }
    }
//@ loop 2
    invariant
        vx_it2.v == bbs, 0 <= vx_it2.i@ <= bl.len(), vx_st.after(s0), vx_st.room(),
        wst(b0, self.v(), func, n, bl, vx_it2.i@),
        vx_st.err_num == 0 ==> clean(self.v()) && fst(self.v(), func, n, ps, ret, bl, vx_it2.i@) && head_ok(b0, n, ps, bs, bl),
        s0.err_num == 0 && vx_st.err_num > 0 ==> fun_bad_at(b0, n, ps, ret, bs, bl),
    ensures
        vx_it2.i@ == bl.len(),
    decreases bl.len() - vx_it2.i@,
//@ loopstart 2
    let ghost (j, bj, sj) = (vx_it2.i@, self.v(), *vx_st);
    proof {
        reveal(list_den);
        if j < bl.len() {
            assert(bl[j] == btree(*bbs@[j]));
            assert forall|i: int| 0 <= i < bs.len() implies wf_block(#[trigger] bs[i]) && (broken_block(bs[i]) ==> sj.err_num > 0) by {}
            lemma_fready(b0, bj, func, n, ret, bs, bl, j, sj);
        }
    }
//@ bodyend 2
    proof {
        lemma_fstep(b0, bj, self.v(), func, n, ps, ret, bl, j, sj, *vx_st);
    }
//@ exit
    proof {
        let b1 = self.v();
        lemma_fdone(b0, b1, func, n, ps, ret, bs, bl);
        if vx_st.err_num == 0 { assert(fun_made(b0, b1, func, n, ps, ret, bs, bl)); assert(fun_den(b0, b1, func, n, ps, ret, bs)); }
        if s0.err_num == 0 && vx_st.err_num > 0 { assert(fun_bad(b0, n, ps, ret, bs)); }
    }
//@ end
//@ fn front::builder::Builder::build_on
    requires ginv(old(self).v()), old(vx_st).room(), wf_item(ast.tree()), broken(ast.tree()) ==> old(vx_st).err_num > 0,
    ensures item_post(old(self).v(), final(self).v(), *old(vx_st), *final(vx_st), ast.tree()),
//@ sig
pub fn build_on(&mut self, ast: &AstBox, vx_st: &mut GlobalState)
//@ entry
    proof { axiom_tree(**ast); }
//@ end
//@ fn front::builder::Builder::new
    ensures ginv(r.v()), r.v().p.order.len() == 0, r.v().p.insts.len() == 0,
//@ end
//@ fn front::builder::Builder::program
    ensures r.m() == self.v().p,
//@ end
}
} // mod items
pub open spec fn found_pred(lb: Map<Seq<char>, BI>, n: Seq<char>, s: Seq<char>, v: Value) -> bool {
    exists|k: int| 0 <= k < lb[n].preds.len() && found(lb, #[trigger] lb[n].preds[k], s, v)
}
/// between the two sets: no block defines the symbol, and the predecessors are in
pub open spec fn none_in(lb: Map<Seq<char>, BI>, v0: Set<Seq<char>>, v1: Set<Seq<char>>, s: Seq<char>) -> bool {
    &&& v0.subset_of(v1)
    &&& forall|x: Seq<char>| #[trigger] v1.contains(x) && !v0.contains(x) ==> !lb[x].defs.contains_key(s)
    &&& forall|x: Seq<char>, k: int| v1.contains(x) && !v0.contains(x) && 0 <= k < lb[x].preds.len() ==> v1.contains(#[trigger] lb[x].preds[k])
}
} // verus!
fn main() {}
