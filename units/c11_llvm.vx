//@ include shim/base.vx
//@ include shim/kindcore.vx
//@ include shim/valacc.vx
//@ include shim/progview.vx
//@ include shim/printer.vx
//@ include shim/mnemonic.vx
// ---- C11: the LLVM IR of a program ----
// `l_x(c, t, ..)` is the text `t` followed by the LLVM IR of x.
verus! {
//@ rule &__e[1..] => vx_tail(__e)
//@ rule __e.into() => vx_to_string(__e)
//@ rule NonZeroUsize::new_unchecked(__e) => vx_nonzero(__e)
//@ path Self::MAX_ID_LEN => MAX_ID_LEN
//@ item back::llvm::VisitorImpl::MAX_ID_LEN
#[verifier::external_body]
pub fn vx_to_string(s: &str) -> (r: String) ensures r@ == s@, { s.to_string() }
#[verifier::external_body]
pub fn vx_nonzero(n: usize) -> (r: NonZeroUsize) requires n > 0, { unimplemented!() }
/// a name without its first character, which takes one byte
#[verifier::external_body]
pub struct VxTail { x: usize }
impl VxTail { pub uninterp spec fn text(&self) -> Seq<char>; }
impl VxShow for VxTail { open spec fn show(&self) -> Seq<char> { self.text() } }
#[verifier::external_body]
pub fn vx_tail(s: Rc<String>) -> (r: VxTail)
    requires s@.len() > 0, (s@[0] as u32) < 128,
    ensures r.text() == s@.skip(1),
{ unimplemented!() }

/// text, and the temporaries handed out so far
pub ghost struct T { pub o: Seq<char>, pub k: nat }
impl T {
    pub open spec fn push(self, c: char) -> T { T { o: self.o.push(c), k: self.k } }
    pub open spec fn put(self, s: Seq<char>) -> T { T { o: self.o + s, k: self.k } }
    /// after one more temporary
    pub open spec fn next(self) -> T { T { o: self.o, k: self.k + 1 } }
}

// ---- identifiers ----
pub open spec fn id_char(c: char) -> bool {
    ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || ('0' <= c && c <= '9') || c == '$' || c == '.' || c == '_' || c == '-'
}
/// A prefix under which every name is an identifier: automatic and `%` names cannot come out as a number.
pub open spec fn sigil(s: Seq<char>, c: char) -> bool {
    s.len() > 1 && s[0] == c && !('0' <= s[1] && s[1] <= '9') && forall|i: int| 1 <= i < s.len() ==> id_char(#[trigger] s[i])
}
/// names of globals start with `@`; names of locals with `%`, and labels share their name space
pub open spec fn prefix_fits(p: Prefix, global: bool, unified: bool) -> bool {
    let c = if global { '@' } else { '%' };
    unified && match p { Prefix::Custom { named, temp, max_len } => named@ == seq![c] && sigil(temp@, c), _ => false }
}
pub proof fn lemma_prefixes()
    ensures "@"@ == seq!['@'], "%"@ == seq!['%'], sigil("@$"@, '@'), sigil("%$"@, '%'),
{
    reveal_strlit("@"); reveal_strlit("%"); reveal_strlit("@$"); reveal_strlit("%$");
    assert("@"@ =~= seq!['@']); assert("%"@ =~= seq!['%']);
}

// ---- types ----
pub uninterp spec fn tdepth(t: Type) -> nat;
#[verifier::external_body]
pub proof fn axiom_tdepth(t: Type)
    ensures match tk(t) {
        TypeKind::Array(b, n) => tdepth(b) < tdepth(t),
        TypeKind::Pointer(b) => tdepth(b) < tdepth(t),
        TypeKind::Function(ps, r) => tdepth(r) < tdepth(t) && forall|i: int| 0 <= i < ps@.len() ==> tdepth(#[trigger] ps@[i]) < tdepth(t),
        _ => true,
    },
{}
pub open spec fn l_type(t: T, y: Type) -> T
    decreases tdepth(y), 1nat, 0nat,
{
    match tk(y) {
        TypeKind::Int32 => t§i32§,
        TypeKind::Unit => t§void§,
        TypeKind::Array(b, n) => if tdepth(b) < tdepth(y) { l_type(t§[§.put(dec(n as int))§ x §, b)§]§ } else { t },
        TypeKind::Pointer(b) => if tdepth(b) < tdepth(y) { l_type(t, b)§*§ } else { t },
        TypeKind::Function(ps, r) => if tdepth(r) < tdepth(y) { l_ptypes(l_type(t, r)§ (§, y, ps@, ps@.len())§)*§ } else { t },
    }
}
/// the first `n` parameter types of a function type
pub open spec fn l_ptypes(t: T, y: Type, ps: Seq<Type>, n: nat) -> T
    decreases tdepth(y), 0nat, n,
{
    if n == 0 { t } else {
        let q = l_ptypes(t, y, ps, (n - 1) as nat);
        if tdepth(ps[n - 1]) < tdepth(y) { l_type(if n > 1 { q§, § } else { q }, ps[n - 1]) } else { q }
    }
}
pub open spec fn l_types(t: T, ps: Seq<Type>, n: nat) -> T
    decreases n,
{
    if n == 0 { t } else {
        let q = l_types(t, ps, (n - 1) as nat);
        l_type(if n > 1 { q§, § } else { q }, ps[n - 1])
    }
}
pub open spec fn pointee(t: Type) -> Type { match tk(t) { TypeKind::Pointer(b) => b, _ => t } }

// ---- constants and operands ----
pub open spec fn l_const(t: T, d: ValueData, m: Map<Value, ValueData>) -> T
    decreases d.depth(), 1nat, 0nat,
{
    match d.what() {
        ValueKind::Integer(v) => t.put(dec(v.value as int)),
        ValueKind::ZeroInit(_) => t§zeroinitializer§,
        ValueKind::Undef(_) => t§undef§,
        ValueKind::Aggregate(v) => l_elems(t§[§, d, m, v.elems@.len())§]§,
        _ => t,
    }
}
/// the first `n` elements of an aggregate, each with its type
pub open spec fn l_elems(t: T, d: ValueData, m: Map<Value, ValueData>, n: nat) -> T
    decreases d.depth(), 0nat, n,
{
    if n == 0 { t } else {
        let q = l_elems(t, d, m, (n - 1) as nat);
        let e = m[operands(d.what())[n - 1]];
        if e.depth() < d.depth() { l_const(l_type(if n > 1 { q§, § } else { q }, e.typed())§ §, e, m) } else { q }
    }
}
pub open spec fn l_value(c: Cx, t: T, typed: bool, v: Value) -> T {
    let d = c.get(v);
    let t = if typed { l_type(t, d.typed())§ § } else { t };
    if !global(v) && constant(d.what()) { l_const(t, d, c.f.vals()) } else { t.put(c.name(d)) }
}
pub open spec fn l_values(c: Cx, t: T, vs: Seq<Value>, n: nat) -> T
    decreases n,
{
    if n == 0 { t } else {
        let q = l_values(c, t, vs, (n - 1) as nat);
        l_value(c, if n > 1 { q§, § } else { q }, true, vs[n - 1])
    }
}
pub open spec fn l_label(c: Cx, t: T, b: BasicBlock) -> T { t.put(lname(c.run, c.scope, c.f.bbs()[b].addr())) }

// ---- instructions ----
pub open spec fn compares(op: BinaryOp) -> bool {
    op is NotEq || op is Eq || op is Gt || op is Lt || op is Ge || op is Le
}
/// The LLVM instruction with the meaning of an operator on two's complement 32-bit integers:
/// comparisons and division are signed, `shr` shifts in zeros, `sar` shifts in the sign.
pub open spec fn l_operator(t: T, op: BinaryOp) -> T {
    match op {
        BinaryOp::NotEq => t§icmp ne§, BinaryOp::Eq => t§icmp eq§,
        BinaryOp::Gt => t§icmp sgt§, BinaryOp::Lt => t§icmp slt§, BinaryOp::Ge => t§icmp sge§, BinaryOp::Le => t§icmp sle§,
        BinaryOp::Add => t§add§, BinaryOp::Sub => t§sub§, BinaryOp::Mul => t§mul§, BinaryOp::Div => t§sdiv§, BinaryOp::Mod => t§srem§,
        BinaryOp::And => t§and§, BinaryOp::Or => t§or§, BinaryOp::Xor => t§xor§,
        BinaryOp::Shl => t§shl§, BinaryOp::Shr => t§lshr§, BinaryOp::Sar => t§ashr§,
    }
}
/// `name = op i32 a, b`
pub open spec fn l_bin(c: Cx, t: T, name: Seq<char>, b: Binary) -> T {
    l_value(c, l_value(c, l_operator(t.put(name)§ = §, b.op)§ i32 §, false, b.lhs)§, §, false, b.rhs)
}
/// a comparison gives an `i1`, which is extended to the 0 or 1 of Koopa IR
pub open spec fn l_binary(c: Cx, t: T, d: ValueData, b: Binary) -> T {
    if compares(b.op) {
        let x = tname(c.run, t.k);
        l_bin(c, t.next(), x, b)§\n  §.put(c.name(d))§ = zext i1 §.put(x)§ to i32§
    } else { l_bin(c, t, c.name(d), b) }
}
pub open spec fn l_gep(c: Cx, t: T, src: Value) -> T {
    l_value(c, l_type(t§getelementptr inbounds §, pointee(c.get(src).typed()))§, §, true, src)§, §
}
/// an instruction without its result
pub open spec fn l_op(c: Cx, t: T, d: ValueData) -> T {
    match d.what() {
        ValueKind::Alloc(_) => l_type(t§alloca §, pointee(d.typed())),
        ValueKind::Load(v) => l_value(c, l_type(t§load §, d.typed())§, §, true, v.src),
        ValueKind::Store(v) => l_value(c, l_value(c, t§store §, true, v.value)§, §, true, v.dest),
        ValueKind::GetPtr(v) => l_value(c, l_gep(c, t, v.src), true, v.index),
        ValueKind::GetElemPtr(v) => l_value(c, l_gep(c, t, v.src)§i32 0, §, true, v.index),
        ValueKind::Binary(v) => l_binary(c, t, d, v),
        ValueKind::Branch(v) => {
            let x = tname(c.run, t.k);
            l_label(c, l_label(c, l_value(c, t.next().put(x)§ = icmp ne i32 §, false, v.cond)§, 0\n  br i1 §.put(x)§, label §, v.true_bb)§, label §, v.false_bb)
        },
        ValueKind::Jump(v) => l_label(c, t§br label §, v.target),
        ValueKind::Call(v) => l_values(c, l_type(t§call §, d.typed())§ §.put(gname(c.run, c.p.fns()[v.callee].addr()))§(§, v.args@, v.args@.len())§)§,
        ValueKind::Return(v) => match v.value { Some(x) => l_value(c, t§ret §, true, x), None => t§ret void§ },
        _ => t,
    }
}
pub open spec fn l_inst(c: Cx, t: T, d: ValueData) -> T {
    l_op(c, if d.what() is Binary || tk(d.typed()) is Unit { t } else { t.put(c.name(d))§ = § }, d)§\n§
}
pub open spec fn l_insts(c: Cx, t: T, is: Seq<Value>, n: nat) -> T
    decreases n,
{ if n == 0 { t } else { l_inst(c, l_insts(c, t, is, (n - 1) as nat)§  §, c.f.vals()[is[n - 1]]) } }

// ---- blocks: a parameter is a phi over the branches to the block ----
/// what the branch `u` passes for parameter `i` of block `b`
pub open spec fn passed(c: Cx, u: Value, b: BasicBlock, i: int) -> Value {
    match c.f.vals()[u].what() {
        ValueKind::Branch(br) => if br.true_bb == b { br.true_args@[i] } else { br.false_args@[i] },
        ValueKind::Jump(j) => j.args@[i],
        _ => u,
    }
}
pub open spec fn l_edges(c: Cx, t: T, b: BasicBlock, i: int, us: Seq<Value>, n: nat) -> T
    decreases n,
{
    if n == 0 { t } else {
        let q = l_edges(c, t, b, i, us, (n - 1) as nat);
        l_label(c, l_value(c, (if n > 1 { q§, § } else { q })§[§, false, passed(c, us[n - 1], b, i))§, §, c.f.parents()[us[n - 1]])§]§
    }
}
pub open spec fn l_phis(c: Cx, t: T, b: BasicBlock, n: nat) -> T
    decreases n,
{
    if n == 0 { t } else {
        let q = l_phis(c, t, b, (n - 1) as nat);
        let d = c.f.vals()[c.f.bbs()[b].pars()[n - 1]];
        let us = set_order(c.f.bbs()[b].users());
        l_edges(c, l_type(q§  §.put(c.name(d))§ = phi §, d.typed())§ §, b, n - 1, us, us.len())§\n§
    }
}
pub open spec fn l_bb(c: Cx, t: T, b: BasicBlock) -> T {
    let d = c.f.bbs()[b];
    l_insts(c, l_phis(c, t.put(lname(c.run, c.scope, d.addr()).skip(1))§:\n§, b, d.pars().len()), c.f.body()[b], c.f.body()[b].len())
}
pub open spec fn l_bbs(c: Cx, t: T, n: nat) -> T
    decreases n,
{
    if n == 0 { t } else {
        let q = l_bbs(c, t, (n - 1) as nat);
        l_bb(c, if n > 1 { q§\n§ } else { q }, c.f.order()[n - 1])
    }
}
/// `type name` of the first `n` parameters
pub open spec fn l_pars(c: Cx, t: T, ps: Seq<Value>, n: nat) -> T
    decreases n,
{
    if n == 0 { t } else {
        let q = l_pars(c, t, ps, (n - 1) as nat);
        let d = c.f.vals()[ps[n - 1]];
        l_type(if n > 1 { q§, § } else { q }, d.typed())§ §.put(c.name(d))
    }
}
pub open spec fn l_func(c: Cx, t: T) -> T {
    let decl = c.f.bbs() == Map::<BasicBlock, BasicBlockData>::empty();
    match tk(c.f.typed()) {
        TypeKind::Function(ps, r) => {
            let q = l_type((if decl { t§declare§ } else { t§define§ })§ §, r)§ §.put(gname(c.run, c.f.addr()))§(§;
            let q = (if decl { l_types(q, ps@, ps@.len()) } else { l_pars(c, q, c.f.pars(), c.f.pars().len()) })§)§;
            if decl { q§\n§ } else { l_bbs(c, q§ {\n§, c.f.order().len())§}\n§ }
        },
        _ => t,
    }
}
pub open spec fn l_global(c: Cx, t: T, d: ValueData) -> T {
    match d.what() {
        ValueKind::GlobalAlloc(v) => {
            let i = c.p.gvals()[v.init];
            l_const(l_type(t.put(c.name(d))§ = global §, i.typed())§ §, i, c.p.gvals())§\n§
        },
        _ => t,
    }
}
pub open spec fn l_globals(c: Cx, t: T, n: nat) -> T
    decreases n,
{ if n == 0 { t } else { l_global(c, l_globals(c, t, (n - 1) as nat), c.p.gvals()[c.p.insts()[n - 1]]) } }
pub open spec fn l_funcs(p: Program, run: int, scope: nat, t: T, n: nat) -> T
    decreases n,
{
    if n == 0 { t } else {
        let q = l_funcs(p, run, scope, t, (n - 1) as nat);
        l_func(Cx { p: p, f: p.fns()[p.order()[n - 1]], run: run, scope: scope + n }, if n > 1 { q§\n§ } else { q })
    }
}
/// The LLVM IR of a whole program.
pub open spec fn l_program(p: Program, run: int, scope: nat, t: T) -> T {
    let q = l_globals(Cx { p: p, f: arbitrary(), run: run, scope: scope }, t, p.insts().len());
    l_funcs(p, run, scope, if p.insts().len() == 0 { q } else { q§\n§ }, p.order().len())
}

// ---- well-formed programs ----
pub open spec fn vals_ok(c: Cx, s: Seq<Value>) -> bool { forall|i: int| 0 <= i < s.len() ==> c.operand(#[trigger] s[i]) }
pub open spec fn pointer(c: Cx, v: Value) -> bool { c.operand(v) && tk(c.get(v).typed()) is Pointer }
pub open spec fn op_ok(c: Cx, d: ValueData) -> bool {
    match d.what() {
        ValueKind::Alloc(_) => tk(d.typed()) is Pointer,
        ValueKind::Load(v) => c.operand(v.src),
        ValueKind::Store(v) => c.operand(v.value) && c.operand(v.dest),
        ValueKind::GetPtr(v) => pointer(c, v.src) && c.operand(v.index),
        ValueKind::GetElemPtr(v) => pointer(c, v.src) && c.operand(v.index),
        ValueKind::Binary(v) => c.operand(v.lhs) && c.operand(v.rhs),
        ValueKind::Branch(v) => c.operand(v.cond) && c.target(v.true_bb) && c.target(v.false_bb),
        ValueKind::Jump(v) => c.target(v.target),
        ValueKind::Call(v) => c.p.fns().contains_key(v.callee) && c.p.order().contains(v.callee) && vals_ok(c, v.args@),
        ValueKind::Return(v) => v.value is Some ==> c.operand(v.value->0),
        _ => false,
    }
}
/// a branch to `b` that passes `n` arguments
pub open spec fn edge_ok(c: Cx, u: Value, b: BasicBlock, n: nat) -> bool {
    &&& !global(u) && c.f.vals().contains_key(u) && c.f.parents().contains_key(u) && c.target(c.f.parents()[u])
    &&& match c.f.vals()[u].what() {
        ValueKind::Branch(br) => {
            &&& br.true_bb == b ==> br.true_args@.len() == n && vals_ok(c, br.true_args@)
            &&& br.true_bb != b ==> br.false_args@.len() == n && vals_ok(c, br.false_args@)
        },
        ValueKind::Jump(j) => j.args@.len() == n && vals_ok(c, j.args@),
        _ => false,
    }
}
pub open spec fn edges_ok(c: Cx, b: BasicBlock) -> bool {
    forall|u: Value| #[trigger] c.f.bbs()[b].users().contains(u) ==> edge_ok(c, u, b, c.f.bbs()[b].pars().len())
}
pub open spec fn bb_ok(c: Cx, b: BasicBlock) -> bool {
    &&& c.f.bbs().contains_key(b) && edges_ok(c, b)
    &&& forall|i: int| 0 <= i < c.f.bbs()[b].pars().len() ==> c.local(#[trigger] c.f.bbs()[b].pars()[i])
    &&& forall|i: int| 0 <= i < c.f.body()[b].len() ==> c.local(#[trigger] c.f.body()[b][i]) && op_ok(c, c.f.vals()[c.f.body()[b][i]])
}
pub open spec fn func_ok(c: Cx) -> bool {
    &&& tk(c.f.typed()) is Function && (consts_ok(c.f.vals()) && consts_ok(c.p.gvals()))
    &&& forall|i: int| 0 <= i < c.f.pars().len() ==> c.local(#[trigger] c.f.pars()[i])
    &&& forall|i: int| 0 <= i < c.f.order().len() ==> bb_ok(c, #[trigger] c.f.order()[i])
}
pub open spec fn global_ok(c: Cx, d: ValueData) -> bool {
    match d.what() { ValueKind::GlobalAlloc(v) => c.p.gvals().contains_key(v.init) && constant(c.p.gvals()[v.init].what()), _ => false }
}
/// every global variable is listed (C19)
pub open spec fn all_listed(p: Program) -> bool {
    forall|v: Value| #[trigger] p.gvals().contains_key(v) && p.gvals()[v].what() is GlobalAlloc ==> p.insts().contains(v)
}
pub open spec fn program_ok(p: Program) -> bool {
    let c = Cx { p: p, f: arbitrary(), run: 0, scope: 0 };
    &&& consts_ok(p.gvals()) && all_listed(p)
    &&& forall|i: int| 0 <= i < p.insts().len() ==> p.gvals().contains_key(#[trigger] p.insts()[i]) && global_ok(c, p.gvals()[p.insts()[i]])
    &&& forall|i: int| 0 <= i < p.order().len() ==> p.fns().contains_key(#[trigger] p.order()[i])
        && forall|run: int, scope: nat| #[trigger] func_ok(Cx { p: p, f: p.fns()[p.order()[i]], run: run, scope: scope })
}
/// Every global variable and function has its name, given while the prefix was that of globals.
pub open spec fn globals_named(p: Program, nm: NameManager) -> bool {
    forall|v: Value| #[trigger] p.gvals().contains_key(v) && p.gvals()[v].what() is GlobalAlloc ==> nm.named().contains(p.gvals()[v].addr())
}
pub open spec fn named_all(p: Program, nm: NameManager) -> bool {
    forall|i: int| 0 <= i < p.order().len() ==> nm.named().contains(p.fns()[#[trigger] p.order()[i]].addr())
}

// ---- the generator ----
//@ item back::llvm::Visitor
//@ item back::llvm::VisitorImpl
impl<'a, W: Write> VisitorImpl<'a, W> {
    pub open spec fn cx(&self) -> Cx { Cx { p: *self.program, f: *self.func->0, run: self.nm.run(), scope: self.nm.scope() } }
    pub open spec fn t(&self) -> T { T { o: self.w.out(), k: self.nm.temps() } }
    /// the borrows held are the same
    #[verifier::prophetic]
    pub open spec fn held(&self, s: VisitorImpl<'a, W>) -> bool { *final(self.w) == *final(s.w) && *final(self.nm) == *final(s.nm) }
    /// only text is added and names are handed out
    #[verifier::prophetic]
    pub open spec fn kept(&self, s: VisitorImpl<'a, W>) -> bool {
        self.program == s.program && self.func == s.func && self.nm.same(*s.nm) && self.held(s)
    }
    pub open spec fn ready(&self) -> bool {
        &&& self.func is Some && self.nm.inside() && self.nm.fits(false)
        &&& consts_ok(self.cx().f.vals()) && consts_ok(self.cx().p.gvals())
        &&& globals_named(*self.program, *self.nm) && named_all(*self.program, *self.nm)
    }
}
impl<'a, W: Write> VisitorImpl<'a, W> {
//@ fn back::llvm::VisitorImpl::visit_type
    requires true,
    ensures
        final(self).kept(*old(self)),
        r is Ok ==> final(self).t() == l_type(old(self).t(), *ty),
    decreases tdepth(*ty),
//@ entry
        let ghost g0 = *self; proof { axiom_tdepth(*ty); }
//@ beforeloop 0
        let ghost t0 = self.t();
//@ loop 0
    invariant
        self.kept(g0), g0 == *old(self), vx_it0.i <= vx_it0.s.items().len(), vx_it0.s@ == params@, tk(*ty) is Function, params@ == tk(*ty)->Function_0@,
        forall|i: int| 0 <= i < params@.len() ==> tdepth(#[trigger] params@[i]) < tdepth(*ty),
        self.t() == l_ptypes(t0, *ty, params@, vx_it0.i as nat),
    ensures vx_it0.i == vx_it0.s.items().len(),
    decreases vx_it0.s.items().len() - vx_it0.i,
//@ end
//@ fn back::llvm::VisitorImpl::visit_bb_ref
    requires old(self).ready(), old(self).cx().target(bb),
    ensures
        final(self).kept(*old(self)),
        r is Ok ==> final(self).t() == l_label(old(self).cx(), old(self).t(), bb),
//@ end
//@ fn back::llvm::VisitorImpl::visit_value
    requires old(self).ready(), old(self).cx().operand(value),
    ensures
        final(self).kept(*old(self)),
        r is Ok ==> final(self).t() == l_value(old(self).cx(), old(self).t(), with_ty, value),
//@ end
//@ fn back::llvm::VisitorImpl::visit_global_const
    requires constant(value.what()), elems_ok(*value, old(self).cx().p.gvals()), consts_ok(old(self).cx().p.gvals()),
    ensures
        final(self).kept(*old(self)),
        r is Ok ==> final(self).t() == l_const(l_type(old(self).t(), value.typed())§ §, *value, old(self).cx().p.gvals()),
    decreases value.depth(),
//@ entry
        let ghost g0 = *self; let ghost c = self.cx();
//@ beforeloop 0
        let ghost t0 = self.t();
//@ loop 0
    invariant
        self.kept(g0), g0 == *old(self), vx_it0.i <= vx_it0.s.items().len(), c == g0.cx(), vx_it0.s@ == operands(value.what()), elems_ok(*value, c.p.gvals()), consts_ok(c.p.gvals()), value.what() is Aggregate,
        self.t() == l_elems(t0, *value, c.p.gvals(), vx_it0.i as nat),
    ensures vx_it0.i == vx_it0.s.items().len(),
    decreases vx_it0.s.items().len() - vx_it0.i,
//@ body 0
        assert(*elem == operands(value.what())[vx_it0.i - 1]);
//@ end
//@ fn back::llvm::VisitorImpl::visit_local_const
    requires old(self).ready(), constant(value.what()), elems_ok(*value, old(self).cx().f.vals()),
    ensures
        final(self).kept(*old(self)),
        r is Ok ==> final(self).t() == l_const(if with_ty { l_type(old(self).t(), value.typed())§ § } else { old(self).t() }, *value, old(self).cx().f.vals()),
    decreases value.depth(),
//@ entry
        let ghost g0 = *self; let ghost c = self.cx();
//@ beforeloop 0
        let ghost t0 = self.t();
//@ loop 0
    invariant
        self.kept(g0), g0 == *old(self), g0.ready(), vx_it0.i <= vx_it0.s.items().len(), c == g0.cx(), vx_it0.s@ == operands(value.what()), elems_ok(*value, c.f.vals()), value.what() is Aggregate,
        self.t() == l_elems(t0, *value, c.f.vals(), vx_it0.i as nat),
    ensures vx_it0.i == vx_it0.s.items().len(),
    decreases vx_it0.s.items().len() - vx_it0.i,
//@ body 0
        assert(*elem == operands(value.what())[vx_it0.i - 1]);
//@ end
//@ fn back::llvm::VisitorImpl::visit_alloc
    requires tk(*ty) is Pointer,
    ensures
        final(self).kept(*old(self)),
        r is Ok ==> final(self).t() == l_type(old(self).t()§alloca §, pointee(*ty)),
//@ end
//@ fn back::llvm::VisitorImpl::visit_load
    requires old(self).ready(), old(self).cx().operand(load.src),
    ensures
        final(self).kept(*old(self)),
        r is Ok ==> final(self).t() == l_value(old(self).cx(), l_type(old(self).t()§load §, *ty)§, §, true, load.src),
//@ end
//@ fn back::llvm::VisitorImpl::visit_store
    requires old(self).ready(), old(self).cx().operand(store.value), old(self).cx().operand(store.dest),
    ensures
        final(self).kept(*old(self)),
        r is Ok ==> final(self).t() == l_value(old(self).cx(), l_value(old(self).cx(), old(self).t()§store §, true, store.value)§, §, true, store.dest),
//@ end
//@ fn back::llvm::VisitorImpl::visit_getptr
    requires old(self).ready(), pointer(old(self).cx(), gp.src), old(self).cx().operand(gp.index),
    ensures
        final(self).kept(*old(self)),
        r is Ok ==> final(self).t() == l_value(old(self).cx(), l_gep(old(self).cx(), old(self).t(), gp.src), true, gp.index),
//@ end
//@ fn back::llvm::VisitorImpl::visit_getelemptr
    requires old(self).ready(), pointer(old(self).cx(), gep.src), old(self).cx().operand(gep.index),
    ensures
        final(self).kept(*old(self)),
        r is Ok ==> final(self).t() == l_value(old(self).cx(), l_gep(old(self).cx(), old(self).t(), gep.src)§i32 0, §, true, gep.index),
//@ end
//@ fn back::llvm::VisitorImpl::visit_binary
    requires old(self).ready(), old(self).cx().operand(bin.lhs), old(self).cx().operand(bin.rhs), value.what() is Binary,
    ensures
        final(self).kept(*old(self)),
        r is Ok ==> final(self).t() == l_binary(old(self).cx(), old(self).t(), *value, *bin),
//@ entry
        proof { lemma_op_text(); }
//@ end
//@ fn back::llvm::VisitorImpl::visit_branch
    requires old(self).ready(), old(self).cx().operand(br.cond), old(self).cx().target(br.true_bb), old(self).cx().target(br.false_bb),
    ensures
        final(self).kept(*old(self)),
        r is Ok ==> final(self).t() == l_label(old(self).cx(), l_label(old(self).cx(), l_value(old(self).cx(), old(self).t().next().put(tname(old(self).cx().run, old(self).t().k))§ = icmp ne i32 §, false, br.cond)§, 0\n  br i1 §.put(tname(old(self).cx().run, old(self).t().k))§, label §, br.true_bb)§, label §, br.false_bb),
//@ end
//@ fn back::llvm::VisitorImpl::visit_jump
    requires old(self).ready(), old(self).cx().target(jump.target),
    ensures
        final(self).kept(*old(self)),
        r is Ok ==> final(self).t() == l_label(old(self).cx(), old(self).t()§br label §, jump.target),
//@ end
//@ fn back::llvm::VisitorImpl::visit_call
    requires old(self).ready(), old(self).cx().p.fns().contains_key(call.callee), old(self).cx().p.order().contains(call.callee), vals_ok(old(self).cx(), call.args@),
    ensures
        final(self).kept(*old(self)),
        r is Ok ==> final(self).t() == l_values(old(self).cx(), l_type(old(self).t()§call §, *ty)§ §.put(gname(old(self).cx().run, old(self).cx().p.fns()[call.callee].addr()))§(§, call.args@, call.args@.len())§)§,
//@ entry
        let ghost g0 = *self; let ghost c = self.cx();
//@ beforeloop 0
        let ghost t0 = self.t();
//@ loop 0
    invariant
        self.kept(g0), g0 == *old(self), g0.ready(), vx_it0.i <= vx_it0.s.items().len(), c == g0.cx(), vx_it0.s@ == call.args@, vals_ok(c, call.args@),
        self.t() == l_values(c, t0, call.args@, vx_it0.i as nat),
    ensures vx_it0.i == vx_it0.s.items().len(),
    decreases vx_it0.s.items().len() - vx_it0.i,
//@ end
//@ fn back::llvm::VisitorImpl::visit_return
    requires old(self).ready(), ret.value is Some ==> old(self).cx().operand(ret.value->0),
    ensures
        final(self).kept(*old(self)),
        r is Ok ==> final(self).t() == match ret.value { Some(x) => l_value(old(self).cx(), old(self).t()§ret §, true, x), None => old(self).t()§ret void§ },
//@ end
//@ fn back::llvm::VisitorImpl::visit_local_inst
    requires old(self).ready(), op_ok(old(self).cx(), *inst),
    ensures
        final(self).kept(*old(self)),
        r is Ok ==> final(self).t() == l_inst(old(self).cx(), old(self).t(), *inst),
//@ end
//@ fn back::llvm::VisitorImpl::visit_global_inst
    requires global_ok(old(self).cx(), *inst), consts_ok(old(self).cx().p.gvals()), old(self).nm.fits(true),
    ensures
        final(self).kept(*old(self)),
        r is Ok ==> final(self).nm.named().contains(inst.addr()),
        r is Ok ==> final(self).t() == l_global(old(self).cx(), old(self).t(), *inst),
//@ end
//@ fn back::llvm::VisitorImpl::visit_bb
    requires old(self).ready(), bb_ok(old(self).cx(), bb), node.list() == old(self).cx().f.body()[bb],
    ensures
        final(self).kept(*old(self)),
        r is Ok ==> final(self).t() == l_bb(old(self).cx(), old(self).t(), bb),
//@ entry
        let ghost g0 = *self; let ghost b0 = bb; let ghost c = self.cx();
//@ beforeloop 0
        let ghost t0 = self.t();
//@ loop 0
    invariant
        self.kept(g0), g0 == *old(self), g0.ready(), vx_it0.i <= vx_it0.s.items().len(), c == g0.cx(), vx_it0.s@ == c.f.bbs()[b0].pars(), bb == b0, *data == c.f.bbs()[b0], bb_ok(c, b0),
        self.t() == l_phis(c, t0, b0, vx_it0.i as nat),
    ensures vx_it0.i == vx_it0.s.items().len(),
    decreases vx_it0.s.items().len() - vx_it0.i,
//@ body 0
        let ghost us = set_order(data.users()); let ghost pi = i as int;
        proof { axiom_set_order(data.users()); }
        assert(*param == c.f.bbs()[b0].pars()[pi]);
//@ beforeloop 1
        let ghost t1 = self.t();
//@ loop 1
    invariant
        self.kept(g0), g0 == *old(self), g0.ready(), vx_it1.i <= vx_it1.s.items().len(), c == g0.cx(), vx_it1.s@ == data.users(), bb == b0, *data == c.f.bbs()[b0], bb_ok(c, b0), us == set_order(data.users()), pi == i, 0 <= pi < data.pars().len(), forall|x: Value| data.users().contains(x) <==> #[trigger] us.contains(x),
        self.t() == l_edges(c, t1, b0, pi, us, vx_it1.i as nat),
    ensures vx_it1.i == vx_it1.s.items().len(),
    decreases vx_it1.s.items().len() - vx_it1.i,
//@ body 1
        assert(us.contains(us[vx_it1.i - 1]));
        assert(edge_ok(c, us[vx_it1.i - 1], b0, data.pars().len()));
//@ beforeloop 2
        let ghost t2 = self.t();
//@ loop 2
    invariant
        self.kept(g0), g0 == *old(self), g0.ready(), vx_it2.i <= vx_it2.s@.len(), c == g0.cx(), vx_it2.s@ == c.f.body()[b0], bb_ok(c, b0),
        self.t() == l_insts(c, t2, c.f.body()[b0], vx_it2.i as nat),
    ensures vx_it2.i == vx_it2.s@.len(),
    decreases vx_it2.s@.len() - vx_it2.i,
//@ end
//@ fn back::llvm::VisitorImpl::visit_func
    requires
        func_ok(old(self).cx()), *func == old(self).cx().f, old(self).func is Some, *old(self).func->0 == *func,
        old(self).nm.inside(), old(self).nm.fits(true), globals_named(*old(self).program, *old(self).nm), named_all(*old(self).program, *old(self).nm),
    ensures
        final(self).program == old(self).program, final(self).held(*old(self)),
        r is Ok ==> final(self).nm.fits(true) && final(self).func == old(self).func && final(self).nm.run() == old(self).nm.run() && final(self).nm.scope() == old(self).nm.scope()
            && final(self).nm.inside() && old(self).nm.named().subset_of(final(self).nm.named()),
        r is Ok ==> final(self).t() == l_func(old(self).cx(), old(self).t()),
//@ entry
        let ghost ga = *self; let ghost c = self.cx();
        proof {
            lemma_prefixes();
            if c.f.bbs().len() == 0 { c.f.bbs().dom().lemma_len0_is_empty(); assert(c.f.bbs() =~= Map::<BasicBlock, BasicBlockData>::empty()); }
        }
//@ beforeloop 0
        let ghost g0 = *self; let ghost t0 = self.t();
//@ loop 0
    invariant
        self.kept(g0), ga == *old(self), g0.held(ga), g0.ready(), c == g0.cx(), c == ga.cx(), g0.program == ga.program, g0.func == ga.func, ga.nm.named().subset_of(g0.nm.named()), g0.nm.inside(), vx_it0.i <= vx_it0.s.items().len(), vx_it0.s@ == param_ty@, 
        self.t() == l_types(t0, param_ty@, vx_it0.i as nat),
    ensures vx_it0.i == vx_it0.s.items().len(),
    decreases vx_it0.s.items().len() - vx_it0.i,
//@ beforeloop 1
        let ghost g0 = *self; let ghost t1 = self.t();
//@ loop 1
    invariant
        self.kept(g0), ga == *old(self), g0.held(ga), g0.ready(), c == g0.cx(), c == ga.cx(), g0.program == ga.program, g0.func == ga.func, ga.nm.named().subset_of(g0.nm.named()), g0.nm.inside(), vx_it1.i <= vx_it1.s.items().len(), vx_it1.s@ == c.f.pars(), func_ok(c),
        self.t() == l_pars(c, t1, c.f.pars(), vx_it1.i as nat),
    ensures vx_it1.i == vx_it1.s.items().len(),
    decreases vx_it1.s.items().len() - vx_it1.i,
//@ beforeloop 2
        let ghost g0 = *self; let ghost t2 = self.t();
//@ loop 2
    invariant
        self.kept(g0), ga == *old(self), g0.held(ga), g0.ready(), c == g0.cx(), c == ga.cx(), g0.program == ga.program, g0.func == ga.func, ga.nm.named().subset_of(g0.nm.named()), g0.nm.inside(), vx_it2.i <= vx_it2.s.items().len(), vx_it2.s.order() == c.f.order(), vx_it2.s.body() == c.f.body(), func_ok(c),
        self.t() == l_bbs(c, t2, vx_it2.i as nat),
    ensures vx_it2.i == vx_it2.s.items().len(),
    decreases vx_it2.s.items().len() - vx_it2.i,
//@ body 2
        proof { axiom_bb_items(vx_it2.s); }
//@ afterloop 2
        proof { axiom_bb_items(vx_it2.s); }
//@ end
//@ fn back::llvm::VisitorImpl::visit
    requires program_ok(*old(self).program), !old(self).nm.inside(),
    ensures
        *final(final(self).w) == *final(old(self).w), *final(final(self).nm) == *final(old(self).nm),
        r is Ok ==> final(self).t() == l_program(*old(self).program, old(self).nm.run(), old(self).nm.scope(), old(self).t()),
//@ entry
        let ghost g0 = *self; let ghost p = *self.program; let ghost run = self.nm.run(); let ghost s0 = self.nm.scope(); let ghost a0 = self.t();
        let ghost c = Cx { p: p, f: arbitrary(), run: run, scope: s0 };
        proof { lemma_prefixes(); }
//@ loop 0
    invariant
        self.held(g0), g0 == *old(self), self.program == g0.program, p == *self.program, program_ok(p), self.nm.run() == run, !self.nm.inside(), self.nm.fits(true), c.p == p, c.run == run, self.nm.scope() == s0, vx_it0.i <= vx_it0.s@.len(), vx_it0.s@ == p.insts(),
        forall|i: int| 0 <= i < vx_it0.i ==> self.nm.named().contains(p.gvals()[#[trigger] p.insts()[i]].addr()),
        self.t() == l_globals(c, a0, vx_it0.i as nat),
    ensures vx_it0.i == vx_it0.s@.len(),
    decreases vx_it0.s@.len() - vx_it0.i,
//@ body 0
        assert(self.program.gvals()[p.insts()[vx_it0.i - 1]].what() is GlobalAlloc);
//@ afterloop 0
        assert(globals_named(p, *self.nm)) by {
            assert forall|v: Value| #[trigger] p.gvals().contains_key(v) && p.gvals()[v].what() is GlobalAlloc implies self.nm.named().contains(p.gvals()[v].addr()) by {
                let i = p.insts().index_of(v); assert(p.insts()[i] == v);
            }
        }
//@ beforeloop 1
        let ghost t1 = self.t();
//@ loop 1
    invariant
        self.held(g0), g0 == *old(self), self.program == g0.program, p == *self.program, program_ok(p), self.nm.run() == run, !self.nm.inside(), self.nm.fits(true), self.nm.scope() == s0, vx_it1.i <= vx_it1.s@.len(), vx_it1.s@ == p.order(), globals_named(p, *self.nm),
        forall|i: int| 0 <= i < vx_it1.i ==> self.nm.named().contains(p.fns()[#[trigger] p.order()[i]].addr()),
        self.t() == t1,
    ensures vx_it1.i == vx_it1.s@.len(),
    decreases vx_it1.s@.len() - vx_it1.i,
//@ beforeloop 2
        let ghost t2 = self.t();
//@ loop 2
    invariant
        self.held(g0), g0 == *old(self), self.program == g0.program, p == *self.program, program_ok(p), self.nm.run() == run, !self.nm.inside(), self.nm.fits(true), self.nm.scope() == s0 + vx_it2.i, vx_it2.i <= vx_it2.s.items().len(), vx_it2.s@ == p.order(), globals_named(p, *self.nm), named_all(p, *self.nm),
        self.t() == l_funcs(p, run, s0, t2, vx_it2.i as nat),
    ensures vx_it2.i == vx_it2.s.items().len(),
    decreases vx_it2.s.items().len() - vx_it2.i,
//@ body 2
        assert(func_ok(Cx { p: p, f: p.fns()[p.order()[vx_it2.i - 1]], run: run, scope: (s0 + vx_it2.i) as nat }));
//@ end
}
impl Visitor {
//@ fn back::llvm::Visitor@Visitor::visit as=visit_program
//@ sig
    pub fn visit_program<W: Write>(&mut self, w: &mut W, nm: &mut NameManager, program: &Program) -> (r: Result<(), IoError>)
    requires program_ok(*program), !old(nm).inside(),
    ensures r is Ok ==> final(w).out() == l_program(*program, old(nm).run(), old(nm).scope(), T { o: old(w).out(), k: old(nm).temps() }).o,
//@ end
}
}
fn main() {}
