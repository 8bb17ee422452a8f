//@ include shim/base.vx
//@ include shim/kindcore.vx
//@ include shim/valacc.vx
//@ include shim/progview.vx
//@ include shim/printer.vx
//@ include shim/mnemonic.vx
// ---- C10: the text form of a program ----
// `p_x(c, o, ..)` is the text `o` followed by the Koopa IR text of x.
verus! {

// ---- the text ----
pub open spec fn p_const(o: Seq<char>, d: ValueData, m: Map<Value, ValueData>) -> Seq<char>
    decreases d.depth(), 1nat, 0nat,
{
    match d.what() {
        ValueKind::Integer(v) => o + dec(v.value as int),
        ValueKind::ZeroInit(_) => o§zeroinit§,
        ValueKind::Undef(_) => o§undef§,
        ValueKind::Aggregate(v) => p_elems(o§{§, d, m, v.elems@.len())§}§,
        _ => o,
    }
}
/// the first `n` elements of an aggregate
pub open spec fn p_elems(o: Seq<char>, d: ValueData, m: Map<Value, ValueData>, n: nat) -> Seq<char>
    decreases d.depth(), 0nat, n,
{
    if n == 0 { o } else {
        let q = p_elems(o, d, m, (n - 1) as nat);
        let e = m[operands(d.what())[n - 1]];
        if e.depth() < d.depth() { p_const(if n > 1 { q§, § } else { q }, e, m) } else { q }
    }
}
pub open spec fn p_value(c: Cx, o: Seq<char>, v: Value) -> Seq<char> {
    let d = c.get(v);
    if !global(v) && constant(d.what()) { p_const(o, d, c.f.vals()) } else { o + c.name(d) }
}
pub open spec fn p_values(c: Cx, o: Seq<char>, vs: Seq<Value>, n: nat) -> Seq<char>
    decreases n,
{
    if n == 0 { o } else {
        let q = p_values(c, o, vs, (n - 1) as nat);
        p_value(c, if n > 1 { q§, § } else { q }, vs[n - 1])
    }
}
pub open spec fn p_target(c: Cx, o: Seq<char>, b: BasicBlock, args: Seq<Value>) -> Seq<char> {
    let q = o + lname(c.run, c.scope, c.f.bbs()[b].addr());
    if args.len() == 0 { q } else { p_values(c, q§(§, args, args.len())§)§ }
}
pub open spec fn p_two(c: Cx, o: Seq<char>, a: Value, b: Value) -> Seq<char> { p_value(c, p_value(c, o, a)§, §, b) }
/// an instruction without its result, other than an allocation
pub open spec fn p_op(c: Cx, o: Seq<char>, k: ValueKind) -> Seq<char> {
    match k {
        ValueKind::Load(v) => p_value(c, o§load §, v.src),
        ValueKind::Store(v) => p_two(c, o§store §, v.value, v.dest),
        ValueKind::GetPtr(v) => p_two(c, o§getptr §, v.src, v.index),
        ValueKind::GetElemPtr(v) => p_two(c, o§getelemptr §, v.src, v.index),
        ValueKind::Binary(v) => p_two(c, (o + mnemonic(v.op))§ §, v.lhs, v.rhs),
        ValueKind::Branch(v) => p_target(c, p_target(c, p_value(c, o§br §, v.cond)§, §, v.true_bb, v.true_args@)§, §, v.false_bb, v.false_args@),
        ValueKind::Jump(v) => p_target(c, o§jump §, v.target, v.args@),
        ValueKind::Call(v) => p_values(c, (o§call § + gname(c.run, c.p.fns()[v.callee].addr()))§(§, v.args@, v.args@.len())§)§,
        ValueKind::Return(v) => match v.value { Some(x) => p_value(c, o§ret §, x), None => o§ret§ },
        _ => o,
    }
}
pub open spec fn p_kind(c: Cx, o: Seq<char>, d: ValueData) -> Seq<char> {
    if d.what() is Alloc { o§alloc § + show_type(pointee(d.typed())) } else { p_op(c, o, d.what()) }
}
pub open spec fn pointee(t: Type) -> Type { match tk(t) { TypeKind::Pointer(b) => b, _ => t } }
pub open spec fn p_inst(c: Cx, o: Seq<char>, d: ValueData) -> Seq<char> {
    p_kind(c, if tk(d.typed()) is Unit { o } else { (o + c.name(d))§ = § }, d)§\n§
}
pub open spec fn p_insts(c: Cx, o: Seq<char>, is: Seq<Value>, n: nat) -> Seq<char>
    decreases n,
{ if n == 0 { o } else { p_inst(c, p_insts(c, o, is, (n - 1) as nat)§  §, c.f.vals()[is[n - 1]]) } }
/// `name: type` of the first `n` parameters
pub open spec fn p_pars(c: Cx, o: Seq<char>, ps: Seq<Value>, n: nat) -> Seq<char>
    decreases n,
{
    if n == 0 { o } else {
        let q = p_pars(c, o, ps, (n - 1) as nat);
        let d = c.f.vals()[ps[n - 1]];
        ((if n > 1 { q§, § } else { q }) + c.name(d))§: § + show_type(d.typed())
    }
}
pub open spec fn p_bb(c: Cx, o: Seq<char>, b: BasicBlock) -> Seq<char> {
    let d = c.f.bbs()[b];
    let q = o + lname(c.run, c.scope, d.addr());
    let q = if d.pars().len() == 0 { q } else { p_pars(c, q§(§, d.pars(), d.pars().len())§)§ };
    p_insts(c, q§:\n§, c.f.body()[b], c.f.body()[b].len())
}
pub open spec fn p_bbs(c: Cx, o: Seq<char>, n: nat) -> Seq<char>
    decreases n,
{
    if n == 0 { o } else {
        let q = p_bbs(c, o, (n - 1) as nat);
        p_bb(c, if n > 1 { q§\n§ } else { q }, c.f.order()[n - 1])
    }
}
pub open spec fn p_types(o: Seq<char>, ts: Seq<Type>, n: nat) -> Seq<char>
    decreases n,
{
    if n == 0 { o } else {
        let q = p_types(o, ts, (n - 1) as nat);
        (if n > 1 { q§, § } else { q }) + show_type(ts[n - 1])
    }
}
pub open spec fn p_func(c: Cx, o: Seq<char>) -> Seq<char> {
    let decl = c.f.bbs() == Map::<BasicBlock, BasicBlockData>::empty();
    let q = ((if decl { o§decl§ } else { o§fun§ })§ § + gname(c.run, c.f.addr()))§(§;
    match tk(c.f.typed()) {
        TypeKind::Function(ps, r) => {
            let q = (if decl { p_types(q, ps@, ps@.len()) } else { p_pars(c, q, c.f.pars(), c.f.pars().len()) })§)§;
            let q = if tk(r) is Unit { q } else { q§: § + show_type(r) };
            if decl { q§\n§ } else { p_bbs(c, q§ {\n§, c.f.order().len())§}\n§ }
        },
        _ => o,
    }
}
pub open spec fn p_global(c: Cx, o: Seq<char>, d: ValueData) -> Seq<char> {
    match d.what() {
        ValueKind::GlobalAlloc(v) => {
            let i = c.p.gvals()[v.init];
            p_const(((o§global § + c.name(d))§ = alloc § + show_type(i.typed()))§, §, i, c.p.gvals())§\n§
        },
        _ => o,
    }
}
pub open spec fn p_globals(c: Cx, o: Seq<char>, n: nat) -> Seq<char>
    decreases n,
{ if n == 0 { o } else { p_global(c, p_globals(c, o, (n - 1) as nat), c.p.gvals()[c.p.insts()[n - 1]]) } }
pub open spec fn p_funcs(p: Program, run: int, scope: nat, o: Seq<char>, n: nat) -> Seq<char>
    decreases n,
{
    if n == 0 { o } else {
        let q = p_funcs(p, run, scope, o, (n - 1) as nat);
        p_func(Cx { p: p, f: p.fns()[p.order()[n - 1]], run: run, scope: scope + n }, if n > 1 { q§\n§ } else { q })
    }
}
/// The text of a whole program: global values, an empty line if there are any, and the
/// functions with empty lines between them.
pub open spec fn p_program(p: Program, run: int, scope: nat, o: Seq<char>) -> Seq<char> {
    let q = p_globals(Cx { p: p, f: arbitrary(), run: run, scope: scope }, o, p.insts().len());
    p_funcs(p, run, scope, if p.insts().len() == 0 { q } else { q§\n§ }, p.order().len())
}

// ---- well-formed programs ----
pub open spec fn vals_ok(c: Cx, s: Seq<Value>) -> bool { forall|i: int| 0 <= i < s.len() ==> c.operand(#[trigger] s[i]) }
pub open spec fn op_ok(c: Cx, k: ValueKind) -> bool {
    match k {
        ValueKind::Load(v) => c.operand(v.src),
        ValueKind::Store(v) => c.operand(v.value) && c.operand(v.dest),
        ValueKind::GetPtr(v) => c.operand(v.src) && c.operand(v.index),
        ValueKind::GetElemPtr(v) => c.operand(v.src) && c.operand(v.index),
        ValueKind::Binary(v) => c.operand(v.lhs) && c.operand(v.rhs),
        ValueKind::Branch(v) => c.operand(v.cond) && c.target(v.true_bb) && c.target(v.false_bb) && vals_ok(c, v.true_args@) && vals_ok(c, v.false_args@),
        ValueKind::Jump(v) => c.target(v.target) && vals_ok(c, v.args@),
        ValueKind::Call(v) => c.p.fns().contains_key(v.callee) && vals_ok(c, v.args@),
        ValueKind::Return(v) => v.value is Some ==> c.operand(v.value->0),
        _ => false,
    }
}
pub open spec fn inst_ok(c: Cx, d: ValueData) -> bool {
    if d.what() is Alloc { tk(d.typed()) is Pointer } else { op_ok(c, d.what()) }
}
pub open spec fn bb_ok(c: Cx, b: BasicBlock) -> bool {
    &&& c.f.bbs().contains_key(b)
    &&& forall|i: int| 0 <= i < c.f.bbs()[b].pars().len() ==> c.local(#[trigger] c.f.bbs()[b].pars()[i])
    &&& forall|i: int| 0 <= i < c.f.body()[b].len() ==> c.local(#[trigger] c.f.body()[b][i]) && inst_ok(c, c.f.vals()[c.f.body()[b][i]])
}
pub open spec fn func_ok(c: Cx) -> bool {
    &&& tk(c.f.typed()) is Function && (consts_ok(c.f.vals()) && consts_ok(c.p.gvals()))
    &&& forall|i: int| 0 <= i < c.f.pars().len() ==> c.local(#[trigger] c.f.pars()[i])
    &&& forall|i: int| 0 <= i < c.f.order().len() ==> bb_ok(c, #[trigger] c.f.order()[i])
}
pub open spec fn global_ok(c: Cx, d: ValueData) -> bool {
    match d.what() { ValueKind::GlobalAlloc(v) => c.p.gvals().contains_key(v.init) && constant(c.p.gvals()[v.init].what()), _ => false }
}
pub open spec fn program_ok(p: Program) -> bool {
    let c = Cx { p: p, f: arbitrary(), run: 0, scope: 0 };
    &&& consts_ok(p.gvals())
    &&& forall|i: int| 0 <= i < p.insts().len() ==> p.gvals().contains_key(#[trigger] p.insts()[i]) && global_ok(c, p.gvals()[p.insts()[i]])
    &&& forall|i: int| 0 <= i < p.order().len() ==> p.fns().contains_key(#[trigger] p.order()[i])
        && forall|run: int, scope: nat| #[trigger] func_ok(Cx { p: p, f: p.fns()[p.order()[i]], run: run, scope: scope })
}
pub open spec fn prefix_fits(p: Prefix, global: bool, unified: bool) -> bool { p is Default }
/// every function has its name
pub open spec fn named_all(p: Program, nm: NameManager) -> bool {
    forall|i: int| 0 <= i < p.order().len() ==> nm.named().contains(p.fns()[#[trigger] p.order()[i]].addr())
}

// ---- the printer ----
//@ item back::koopa::Visitor
//@ item back::koopa::VisitorImpl
impl<'a, W: Write> VisitorImpl<'a, W> {
    pub open spec fn cx(&self) -> Cx { Cx { p: *self.program, f: *self.func->0, run: self.nm.run(), scope: self.nm.scope() } }
    pub open spec fn o(&self) -> Seq<char> { self.w.out() }
    /// only text is added and names are handed out
    #[verifier::prophetic]
    pub open spec fn kept(&self, s: VisitorImpl<'a, W>) -> bool {
        &&& self.program == s.program && self.func == s.func && self.nm.same(*s.nm)
        &&& *final(self.w) == *final(s.w) && *final(self.nm) == *final(s.nm)
    }
    /// the borrows held are the same
    #[verifier::prophetic]
    pub open spec fn held(&self, s: VisitorImpl<'a, W>) -> bool { *final(self.w) == *final(s.w) && *final(self.nm) == *final(s.nm) }
    pub open spec fn ready(&self) -> bool { self.func is Some && self.nm.inside() && self.nm.prefix() is Default && consts_ok(self.cx().f.vals()) && consts_ok(self.cx().p.gvals()) }
}
impl<'a, W: Write> VisitorImpl<'a, W> {
//@ fn back::koopa::VisitorImpl::visit_value
    requires old(self).ready(), old(self).cx().operand(value),
    ensures
        final(self).kept(*old(self)),
        r is Ok ==> final(self).o() == p_value(old(self).cx(), old(self).o(), value),
//@ end
//@ fn back::koopa::VisitorImpl::visit_global_const
    requires constant(value.what()), elems_ok(*value, old(self).cx().p.gvals()), consts_ok(old(self).cx().p.gvals()),
    ensures
        final(self).kept(*old(self)),
        r is Ok ==> final(self).o() == p_const(old(self).o(), *value, old(self).cx().p.gvals()),
    decreases value.depth(),
//@ entry
        let ghost g0 = *self; let ghost c = self.cx();
//@ beforeloop 0
        let ghost o1 = self.o();
//@ loop 0
    invariant
        self.kept(g0), g0 == *old(self), vx_it0.i <= vx_it0.s.items().len(), c == g0.cx(), elems_ok(*value, c.p.gvals()), consts_ok(c.p.gvals()), value.what() is Aggregate, vx_it0.s@ == operands(value.what()),
        self.o() == p_elems(o1, *value, c.p.gvals(), vx_it0.i as nat),
    ensures vx_it0.i == vx_it0.s.items().len(),
    decreases vx_it0.s.items().len() - vx_it0.i,
//@ body 0
        assert(*elem == operands(value.what())[vx_it0.i - 1]);
//@ end
//@ fn back::koopa::VisitorImpl::visit_local_const
    requires old(self).ready(), constant(value.what()), elems_ok(*value, old(self).cx().f.vals()), consts_ok(old(self).cx().f.vals()),
    ensures
        final(self).kept(*old(self)),
        r is Ok ==> final(self).o() == p_const(old(self).o(), *value, old(self).cx().f.vals()),
    decreases value.depth(),
//@ entry
        let ghost g0 = *self; let ghost c = self.cx();
//@ beforeloop 0
        let ghost o1 = self.o();
//@ loop 0
    invariant
        self.kept(g0), g0 == *old(self), g0.ready(), vx_it0.i <= vx_it0.s.items().len(), c == g0.cx(), elems_ok(*value, c.f.vals()), value.what() is Aggregate, vx_it0.s@ == operands(value.what()),
        self.o() == p_elems(o1, *value, c.f.vals(), vx_it0.i as nat),
    ensures vx_it0.i == vx_it0.s.items().len(),
    decreases vx_it0.s.items().len() - vx_it0.i,
//@ body 0
        assert(*elem == operands(value.what())[vx_it0.i - 1]);
//@ end
//@ fn back::koopa::VisitorImpl::visit_bb_target
    requires old(self).ready(), old(self).cx().target(bb), vals_ok(old(self).cx(), params@),
    ensures
        final(self).kept(*old(self)),
        r is Ok ==> final(self).o() == p_target(old(self).cx(), old(self).o(), bb, params@),
//@ entry
        let ghost g0 = *self; let ghost c = self.cx();
//@ beforeloop 0
        let ghost o1 = self.o();
//@ loop 0
    invariant
        self.kept(g0), g0 == *old(self), g0.ready(), vx_it0.i <= vx_it0.s.items().len(), c == g0.cx(), vx_it0.s@ == params@, vals_ok(c, params@),
        self.o() == p_values(c, o1, params@, vx_it0.i as nat),
    ensures vx_it0.i == vx_it0.s.items().len(),
    decreases vx_it0.s.items().len() - vx_it0.i,
//@ end
//@ fn back::koopa::VisitorImpl::visit_load
    requires old(self).ready(), op_ok(old(self).cx(), ValueKind::Load(*load)),
    ensures
        final(self).kept(*old(self)),
        r is Ok ==> final(self).o() == p_op(old(self).cx(), old(self).o(), ValueKind::Load(*load)),
//@ end
//@ fn back::koopa::VisitorImpl::visit_store
    requires old(self).ready(), op_ok(old(self).cx(), ValueKind::Store(*store)),
    ensures
        final(self).kept(*old(self)),
        r is Ok ==> final(self).o() == p_op(old(self).cx(), old(self).o(), ValueKind::Store(*store)),
//@ end
//@ fn back::koopa::VisitorImpl::visit_getptr
    requires old(self).ready(), op_ok(old(self).cx(), ValueKind::GetPtr(*gp)),
    ensures
        final(self).kept(*old(self)),
        r is Ok ==> final(self).o() == p_op(old(self).cx(), old(self).o(), ValueKind::GetPtr(*gp)),
//@ end
//@ fn back::koopa::VisitorImpl::visit_getelemptr
    requires old(self).ready(), op_ok(old(self).cx(), ValueKind::GetElemPtr(*gep)),
    ensures
        final(self).kept(*old(self)),
        r is Ok ==> final(self).o() == p_op(old(self).cx(), old(self).o(), ValueKind::GetElemPtr(*gep)),
//@ end
//@ fn back::koopa::VisitorImpl::visit_binary
    requires old(self).ready(), op_ok(old(self).cx(), ValueKind::Binary(*bin)),
    ensures
        final(self).kept(*old(self)),
        r is Ok ==> final(self).o() == p_op(old(self).cx(), old(self).o(), ValueKind::Binary(*bin)),
//@ end
//@ fn back::koopa::VisitorImpl::visit_branch
    requires old(self).ready(), op_ok(old(self).cx(), ValueKind::Branch(*br)),
    ensures
        final(self).kept(*old(self)),
        r is Ok ==> final(self).o() == p_op(old(self).cx(), old(self).o(), ValueKind::Branch(*br)),
//@ end
//@ fn back::koopa::VisitorImpl::visit_jump
    requires old(self).ready(), op_ok(old(self).cx(), ValueKind::Jump(*jump)),
    ensures
        final(self).kept(*old(self)),
        r is Ok ==> final(self).o() == p_op(old(self).cx(), old(self).o(), ValueKind::Jump(*jump)),
//@ end
//@ fn back::koopa::VisitorImpl::visit_call
    requires old(self).ready(), op_ok(old(self).cx(), ValueKind::Call(*call)),
    ensures
        final(self).kept(*old(self)),
        r is Ok ==> final(self).o() == p_op(old(self).cx(), old(self).o(), ValueKind::Call(*call)),
//@ entry
        let ghost g0 = *self; let ghost c = self.cx();
//@ beforeloop 0
        let ghost o1 = self.o();
//@ loop 0
    invariant
        self.kept(g0), g0 == *old(self), g0.ready(), vx_it0.i <= vx_it0.s.items().len(), c == g0.cx(), vx_it0.s@ == call.args@, vals_ok(c, call.args@),
        self.o() == p_values(c, o1, call.args@, vx_it0.i as nat),
    ensures vx_it0.i == vx_it0.s.items().len(),
    decreases vx_it0.s.items().len() - vx_it0.i,
//@ end
//@ fn back::koopa::VisitorImpl::visit_return
    requires old(self).ready(), op_ok(old(self).cx(), ValueKind::Return(*ret)),
    ensures
        final(self).kept(*old(self)),
        r is Ok ==> final(self).o() == p_op(old(self).cx(), old(self).o(), ValueKind::Return(*ret)),
//@ end
//@ fn back::koopa::VisitorImpl::visit_alloc
    requires tk(*ty) is Pointer,
    ensures
        final(self).kept(*old(self)),
        r is Ok ==> final(self).o() == old(self).o()§alloc § + show_type(pointee(*ty)),
//@ end
//@ fn back::koopa::VisitorImpl::visit_local_inst
    requires old(self).ready(), inst_ok(old(self).cx(), *inst), !constant(inst.what()), !(inst.what() is GlobalAlloc),
    ensures
        final(self).kept(*old(self)),
        r is Ok ==> final(self).o() == p_inst(old(self).cx(), old(self).o(), *inst),
//@ end
//@ fn back::koopa::VisitorImpl::visit_global_inst
    requires global_ok(old(self).cx(), *inst), consts_ok(old(self).cx().p.gvals()), old(self).nm.prefix() is Default,
    ensures
        final(self).kept(*old(self)),
        r is Ok ==> final(self).o() == p_global(old(self).cx(), old(self).o(), *inst),
//@ end
//@ fn back::koopa::VisitorImpl::visit_bb
    requires old(self).ready(), bb_ok(old(self).cx(), bb), node.list() == old(self).cx().f.body()[bb],
    ensures
        final(self).kept(*old(self)),
        r is Ok ==> final(self).o() == p_bb(old(self).cx(), old(self).o(), bb),
//@ entry
        let ghost g0 = *self; let ghost b0 = bb; let ghost c = self.cx();
//@ beforeloop 0
        let ghost o1 = self.o();
//@ loop 0
    invariant
        self.kept(g0), g0 == *old(self), g0.ready(), vx_it0.i <= vx_it0.s.items().len(), c == g0.cx(), vx_it0.s@ == bb.pars(), *bb == c.f.bbs()[b0], bb_ok(c, b0),
        self.o() == p_pars(c, o1, bb.pars(), vx_it0.i as nat),
    ensures vx_it0.i == vx_it0.s.items().len(),
    decreases vx_it0.s.items().len() - vx_it0.i,
//@ beforeloop 1
        let ghost o2 = self.o();
//@ loop 1
    invariant
        self.kept(g0), g0 == *old(self), g0.ready(), vx_it1.i <= vx_it1.s@.len(), c == g0.cx(), vx_it1.s@ == c.f.body()[b0], bb_ok(c, b0),
        self.o() == p_insts(c, o2, c.f.body()[b0], vx_it1.i as nat),
    ensures vx_it1.i == vx_it1.s@.len(),
    decreases vx_it1.s@.len() - vx_it1.i,
//@ end
//@ fn back::koopa::VisitorImpl::visit_func
    requires
        old(self).ready(), func_ok(old(self).cx()), *func == old(self).cx().f, *old(self).func->0 == *func,
        named_all(*old(self).program, *old(self).nm),
    ensures
        final(self).kept(*old(self)),
        r is Ok ==> final(self).o() == p_func(old(self).cx(), old(self).o()),
//@ entry
        let ghost g0 = *self; let ghost c = self.cx();
        proof { if c.f.bbs().len() == 0 { c.f.bbs().dom().lemma_len0_is_empty(); assert(c.f.bbs() =~= Map::<BasicBlock, BasicBlockData>::empty()); } }
//@ beforeloop 0
        let ghost o1 = self.o();
//@ loop 0
    invariant
        self.kept(g0), g0 == *old(self), g0.ready(), vx_it0.i <= vx_it0.s.items().len(), c == g0.cx(), vx_it0.s@ == param_ty@,
        self.o() == p_types(o1, param_ty@, vx_it0.i as nat),
    ensures vx_it0.i == vx_it0.s.items().len(),
    decreases vx_it0.s.items().len() - vx_it0.i,
//@ beforeloop 1
        let ghost o2 = self.o();
//@ loop 1
    invariant
        self.kept(g0), g0 == *old(self), g0.ready(), vx_it1.i <= vx_it1.s.items().len(), c == g0.cx(), vx_it1.s@ == c.f.pars(), func_ok(c),
        self.o() == p_pars(c, o2, c.f.pars(), vx_it1.i as nat),
    ensures vx_it1.i == vx_it1.s.items().len(),
    decreases vx_it1.s.items().len() - vx_it1.i,
//@ afterloop 0
        assert(self.o() == p_types(o1, param_ty@, param_ty@.len()));
//@ afterloop 1
        assert(self.o() == p_pars(c, o2, c.f.pars(), c.f.pars().len()));
//@ beforeloop 2
        let ghost o3 = self.o();
//@ loop 2
    invariant
        self.kept(g0), g0 == *old(self), g0.ready(), vx_it2.i <= vx_it2.s.items().len(), c == g0.cx(), vx_it2.s.order() == c.f.order(), vx_it2.s.body() == c.f.body(), func_ok(c),
        self.o() == p_bbs(c, o3, vx_it2.i as nat),
    ensures vx_it2.i == vx_it2.s.items().len(),
    decreases vx_it2.s.items().len() - vx_it2.i,
//@ afterloop 2
        proof { axiom_bb_items(vx_it2.s); }
//@ body 2
        proof { axiom_bb_items(vx_it2.s); }
//@ end
//@ fn back::koopa::VisitorImpl::visit
    requires program_ok(*old(self).program), !old(self).nm.inside(), old(self).nm.prefix() is Default,
    ensures
        *final(final(self).w) == *final(old(self).w), *final(final(self).nm) == *final(old(self).nm),
        r is Ok ==> final(self).o() == p_program(*old(self).program, old(self).nm.run(), old(self).nm.scope(), old(self).o()),
//@ entry
        let ghost g0 = *self; let ghost p = *self.program; let ghost run = self.nm.run(); let ghost s0 = self.nm.scope(); let ghost o0 = self.o();
        let ghost c = Cx { p: p, f: arbitrary(), run: run, scope: s0 };
//@ loop 0
    invariant
        self.held(g0), g0 == *old(self), self.program == g0.program, p == *self.program, program_ok(p), c.p == p, c.run == run, self.nm.run() == run, self.nm.scope() == s0, !self.nm.inside(), self.nm.prefix() is Default, vx_it0.i <= vx_it0.s@.len(), vx_it0.s@ == p.insts(),
        self.o() == p_globals(c, o0, vx_it0.i as nat),
    ensures vx_it0.i == vx_it0.s@.len(),
    decreases vx_it0.s@.len() - vx_it0.i,
//@ body 0
        assert(self.program.gvals()[p.insts()[vx_it0.i - 1]].what() is GlobalAlloc);
//@ loop 1
    invariant
        self.held(g0), g0 == *old(self), self.program == g0.program, p == *self.program, program_ok(p), self.nm.run() == run, self.nm.scope() == s0, !self.nm.inside(), self.nm.prefix() is Default, vx_it1.i <= vx_it1.s@.len(), vx_it1.s@ == p.order(),
        forall|i: int| 0 <= i < vx_it1.i ==> self.nm.named().contains(p.fns()[#[trigger] p.order()[i]].addr()),
        self.o() == o1,
    ensures vx_it1.i == vx_it1.s@.len(),
    decreases vx_it1.s@.len() - vx_it1.i,
//@ beforeloop 1
        let ghost o1 = self.o();
//@ beforeloop 2
        let ghost o1 = self.o();
//@ loop 2
    invariant
        self.held(g0), g0 == *old(self), self.program == g0.program, p == *self.program, program_ok(p), self.nm.run() == run, self.nm.scope() == s0 + vx_it2.i, !self.nm.inside(), self.nm.prefix() is Default, vx_it2.i <= vx_it2.s.items().len(), vx_it2.s@ == p.order(),
        named_all(p, *self.nm),
        self.o() == p_funcs(p, run, s0, o1, vx_it2.i as nat),
    ensures vx_it2.i == vx_it2.s.items().len(),
    decreases vx_it2.s.items().len() - vx_it2.i,
//@ body 2
        assert(func_ok(Cx { p: p, f: p.fns()[p.order()[vx_it2.i - 1]], run: run, scope: (s0 + vx_it2.i) as nat }));
//@ end
}
impl Visitor {
//@ fn back::koopa::Visitor@Visitor::visit as=visit_program
//@ sig
    pub fn visit_program<W: Write>(&mut self, w: &mut W, nm: &mut NameManager, program: &Program) -> (r: Result<(), IoError>)
    requires program_ok(*program), !old(nm).inside(), old(nm).prefix() is Default,
    ensures r is Ok ==> final(w).out() == p_program(*program, old(nm).run(), old(nm).scope(), old(w).out()),
//@ end
}
}
fn main() {}
