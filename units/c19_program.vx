//@ include shim/base.vx
//@ include shim/kinds.vx
//@ include shim/accessors.vx
//@ include shim/uses.vx
//@ include shim/program.vx
verus! {
pub open spec fn is_galloc(k: ValueKind) -> bool { k is GlobalAlloc }

impl Program {
    /// every function of the list is live and every live function is in the list, once
    pub open spec fn funcs_listed(self) -> bool {
        &&& self.func_layout@.no_duplicates()
        &&& forall|f: Function| #[trigger] self.func_layout@.contains(f) == self.funcs@.contains_key(f)
        &&& forall|f: Function| #[trigger] self.func_tys@.contains_key(f) == self.funcs@.contains_key(f)
    }
    /// the global instructions of the list are the live global allocations, each once
    pub open spec fn insts_listed(self) -> bool {
        &&& self.inst_layout@.no_duplicates()
        &&& forall|v: Value| #[trigger] self.inst_layout@.contains(v) == (self.values@.contains_key(v) && is_galloc(self.values@[v].kind))
    }
    pub open spec fn listed(self) -> bool { self.funcs_listed() && self.insts_listed() }
    pub open spec fn same_funcs(self, o: Program) -> bool {
        self.funcs@ == o.funcs@ && self.func_tys@ == o.func_tys@ && self.func_layout@ == o.func_layout@
    }
    /// same live global values of the same kinds
    pub open spec fn same_globals(self, o: Program) -> bool {
        &&& self.values@.dom() =~= o.values@.dom()
        &&& forall|v: Value| #[trigger] self.values@.contains_key(v) ==> same_but_users(self.values@[v], o.values@[v])
    }
    pub open spec fn closed(self) -> bool {
        &&& forall|u: Value, i: int| self.values@.contains_key(u) && 0 <= i < operands(self.values@[u].kind).len() ==> self.values@.contains_key(#[trigger] operands(self.values@[u].kind)[i])
        &&& forall|u: Value| #[trigger] self.values@.contains_key(u) ==> small(self.values@[u].kind)
        &&& self.funcs_small()
    }
    pub open spec fn funcs_small(self) -> bool {
        forall|f: Function, u: Value| self.funcs@.contains_key(f) && #[trigger] self.funcs@[f].dfg.values@.contains_key(u) ==> small(self.funcs@[f].dfg.values@[u].kind)
    }
}
pub open spec fn same_but_users(a: ValueData, b: ValueData) -> bool {
    a.ty == b.ty && a.name == b.name && a.kind == b.kind
}
pub open spec fn without<T>(s: Seq<T>, x: T) -> Seq<T> { s.remove(s.index_of(x)) }

pub proof fn lemma_remove<T>(s: Seq<T>, i: int)
    requires s.no_duplicates(), 0 <= i < s.len(),
    ensures
        s.remove(i).no_duplicates(),
        s.index_of(s[i]) == i,
        forall|x: T| #[trigger] s.remove(i).contains(x) == (s.contains(x) && x != s[i]),
{
    let r = s.remove(i);
    assert forall|x: T| #[trigger] r.contains(x) == (s.contains(x) && x != s[i]) by {
        if r.contains(x) {
            let k = r.index_of(x);
            assert(r[k] == (if k < i { s[k] } else { s[k + 1] }));
            if k < i { assert(s.contains(s[k])); } else { assert(s.contains(s[k + 1])); }
        }
        if s.contains(x) && x != s[i] {
            let k = s.index_of(x);
            if k < i { assert(r[k] == x); } else { assert(r[k - 1] == x); }
        }
    }
    assert(s.contains(s[i]));
}
pub proof fn lemma_push<T>(s: Seq<T>, y: T)
    requires s.no_duplicates(), !s.contains(y),
    ensures
        s.push(y).no_duplicates(),
        forall|x: T| #[trigger] s.push(y).contains(x) == (s.contains(x) || x == y),
{
    let r = s.push(y);
    assert forall|x: T| #[trigger] r.contains(x) == (s.contains(x) || x == y) by {
        if r.contains(x) { let k = r.index_of(x); if k < s.len() { assert(s[k] == x); } }
        if s.contains(x) { let k = s.index_of(x); assert(r[k] == x); }
        assert(r[s.len() as int] == y);
    }
    assert forall|a: int, b: int| 0 <= a < r.len() && 0 <= b < r.len() && a != b implies r[a] != r[b] by {
        if a < s.len() { assert(s.contains(s[a])); }
        if b < s.len() { assert(s.contains(s[b])); }
    }
}

impl Program {
//@ fn ir::entities::Program@Default::default as=vx_default
    ensures r.listed(), r.closed(), r.funcs@ == Map::<Function, FunctionData>::empty(), r.values@ == Map::<Value, ValueData>::empty(),
        r.func_layout@.len() == 0, r.inst_layout@.len() == 0,
//@ end
//@ rule Self::default() => Self::vx_default()
//@ fn ir::entities::Program::new
    ensures r.listed(), r.closed(), r.funcs@ == Map::<Function, FunctionData>::empty(), r.values@ == Map::<Value, ValueData>::empty(),
        r.func_layout@.len() == 0, r.inst_layout@.len() == 0,
//@ end

//@ fn ir::entities::Program::new_value_data
    requires
        old(self).listed(), old(self).closed(),
        small(data.kind),
        forall|i: int| 0 <= i < operands(data.kind).len() ==> old(self).values@.contains_key(#[trigger] operands(data.kind)[i]),
    ensures
        !old(self).values@.contains_key(r),
        !old(self).inst_layout@.contains(r),
        final(self).values@.dom() =~= old(self).values@.dom().insert(r),
        final(self).values@[r].kind == data.kind,
        forall|v: Value| old(self).values@.contains_key(v) ==> same_but_users(#[trigger] final(self).values@[v], old(self).values@[v]),
        final(self).inst_layout@ == old(self).inst_layout@,
        final(self).same_funcs(*old(self)),
        final(self).closed(),
//@ entry
        let ghost g0 = *self;
//@ loop 0
    invariant_except_break
        vx_it0.index <= operands(data.kind).len(),
    invariant
        vx_it0.kind == &data.kind,
        small(data.kind),
        forall|i: int| 0 <= i < operands(data.kind).len() ==> g0.values@.contains_key(#[trigger] operands(data.kind)[i]),
        self.same_globals(g0),
        self.same_funcs(g0), self.inst_layout == g0.inst_layout,
    decreases operands(data.kind).len() + 1 - vx_it0.index,
//@ loopstart 0
        proof {
            if vx_it0.index < operands(data.kind).len() { assert(g0.values@.contains_key(operands(data.kind)[vx_it0.index as int])); }
        }
//@ end

//@ fn ir::entities::Program::remove_value
    requires
        old(self).listed(), old(self).closed(),
        old(self).values@.contains_key(value),
        // the caller only removes what nobody uses
        old(self).values@[value].used_by@ =~= Set::<Value>::empty(),
        forall|u: Value| #[trigger] old(self).values@.contains_key(u) ==> !operands(old(self).values@[u].kind).contains(value),
    ensures
        r == old(self).values@[value],
        final(self).listed(),
        final(self).values@.dom() =~= old(self).values@.dom().remove(value),
        forall|v: Value| v != value && old(self).values@.contains_key(v) ==> same_but_users(#[trigger] final(self).values@[v], old(self).values@[v]),
        final(self).inst_layout@ =~= (if is_galloc(old(self).values@[value].kind) { without(old(self).inst_layout@, value) } else { old(self).inst_layout@ }),
        final(self).same_funcs(*old(self)),
//@ entry
        let ghost g0 = *self;
        proof {
            if self.inst_layout@.contains(value) {
                lemma_remove(self.inst_layout@, self.inst_layout@.index_of(value));
                assert forall|j: int| 0 <= j < self.inst_layout@.len() && self.inst_layout@[j] == value implies j == self.inst_layout@.index_of(value) by {}
            }
            assert forall|i: int| 0 <= i < operands(self.values@[value].kind).len() implies #[trigger] operands(self.values@[value].kind)[i] != value by {
                assert(operands(self.values@[value].kind).contains(operands(self.values@[value].kind)[i]));
            }
        }
//@ beforeloop 0
        let ghost s0 = *self;
//@ loop 0
    invariant_except_break
        vx_it0.index <= operands(data.kind).len(),
    invariant
        vx_it0.kind == &data.kind,
        small(data.kind),
        forall|i: int| 0 <= i < operands(data.kind).len() ==> s0.values@.contains_key(#[trigger] operands(data.kind)[i]),
        self.same_globals(s0),
        self.same_funcs(s0), self.inst_layout == s0.inst_layout,
    decreases operands(data.kind).len() + 1 - vx_it0.index,
//@ loopstart 0
        proof {
            if vx_it0.index < operands(data.kind).len() { assert(s0.values@.contains_key(operands(data.kind)[vx_it0.index as int])); }
        }
//@ end

//@ fn ir::entities::Program::new_func
    requires
        old(self).listed(), old(self).closed(),
        forall|u: Value| #[trigger] data.dfg.values@.contains_key(u) ==> small(data.dfg.values@[u].kind),
    ensures
        !old(self).funcs@.contains_key(r),
        final(self).listed(), final(self).closed(),
        final(self).func_layout@ == old(self).func_layout@.push(r),
        final(self).funcs@.dom() =~= old(self).funcs@.dom().insert(r),
        forall|f: Function| old(self).funcs@.contains_key(f) ==> #[trigger] final(self).funcs@[f] == old(self).funcs@[f],
        final(self).funcs@[r].ty == data.ty, final(self).funcs@[r].name == data.name, final(self).funcs@[r].params == data.params,
        final(self).funcs@[r].layout == data.layout, final(self).funcs@[r].dfg.values == data.dfg.values, final(self).funcs@[r].dfg.bbs == data.dfg.bbs,
        final(self).func_tys@ == old(self).func_tys@.insert(r, data.ty),
        final(self).inst_layout@ == old(self).inst_layout@,
        final(self).same_globals(*old(self)),
//@ entry
        let ghost g0 = *self;
        let ghost d0 = data;
//@ exit
        proof { lemma_push(g0.func_layout@, vx_ret); }
//@ loop 0
    invariant
        vx_it0.map() == d0.dfg.values@,
        vx_it0.pos() <= vx_it0.order().len(),
        map_order(d0.dfg.values@).no_duplicates(),
        forall|k: Value| map_order(d0.dfg.values@).contains(k) == #[trigger] d0.dfg.values@.contains_key(k),
        forall|u: Value| #[trigger] d0.dfg.values@.contains_key(u) ==> small(d0.dfg.values@[u].kind),
        globals@.dom() =~= g0.values@.dom(),
        forall|v: Value| #[trigger] g0.values@.contains_key(v) ==> same_but_users(globals@[v], g0.values@[v]),
    decreases vx_it0.order().len() - vx_it0.pos(),
//@ loopstart 0
        proof { if vx_it0.pos() < vx_it0.order().len() { assert(vx_it0.order().contains(vx_it0.order()[vx_it0.pos() as int])); assert(d0.dfg.values@.contains_key(vx_it0.order()[vx_it0.pos() as int])); } }
//@ loop 1
    invariant_except_break
        vx_it1.index <= operands(*vx_it1.kind).len(),
    invariant
        vx_it1.kind == &d0.dfg.values@[*value].kind,
        small(*vx_it1.kind),
        globals@.dom() =~= g0.values@.dom(),
        forall|v: Value| #[trigger] g0.values@.contains_key(v) ==> same_but_users(globals@[v], g0.values@[v]),
    decreases operands(*vx_it1.kind).len() + 1 - vx_it1.index,
//@ end

//@ fn ir::entities::Program::remove_func
    requires
        old(self).listed(), old(self).closed(),
    ensures
        r is Some == old(self).funcs@.contains_key(func),
        r matches Some(d) ==> d == old(self).funcs@[func],
        r is None ==> final(self).listed() && final(self).same_funcs(*old(self)) && final(self).values == old(self).values && final(self).inst_layout == old(self).inst_layout,
        r is Some ==> final(self).listed() && final(self).closed()
            && final(self).funcs@ == old(self).funcs@.remove(func)
            && final(self).func_tys@ == old(self).func_tys@.remove(func)
            && final(self).func_layout@ =~= without(old(self).func_layout@, func)
            && final(self).inst_layout@ == old(self).inst_layout@
            && final(self).same_globals(*old(self)),
//@ entry
        let ghost g0 = *self;
        proof {
            if !self.funcs@.contains_key(func) { assert(self.funcs@.remove(func) =~= self.funcs@); }
            if self.func_layout@.contains(func) {
                lemma_remove(self.func_layout@, self.func_layout@.index_of(func));
                assert forall|j: int| 0 <= j < self.func_layout@.len() && self.func_layout@[j] == func implies j == self.func_layout@.index_of(func) by {}
            }
        }
//@ loop 0
    invariant
        vx_it0.map() == data.dfg.values@,
        vx_it0.pos() <= vx_it0.order().len(),
        map_order(data.dfg.values@).no_duplicates(),
        forall|k: Value| map_order(data.dfg.values@).contains(k) == #[trigger] data.dfg.values@.contains_key(k),
        forall|u: Value| #[trigger] data.dfg.values@.contains_key(u) ==> small(data.dfg.values@[u].kind),
        globals@.dom() =~= g0.values@.dom(),
        forall|v: Value| #[trigger] g0.values@.contains_key(v) ==> same_but_users(globals@[v], g0.values@[v]),
    decreases vx_it0.order().len() - vx_it0.pos(),
//@ loopstart 0
        proof { if vx_it0.pos() < vx_it0.order().len() { assert(vx_it0.order().contains(vx_it0.order()[vx_it0.pos() as int])); assert(data.dfg.values@.contains_key(vx_it0.order()[vx_it0.pos() as int])); } }
//@ loop 1
    invariant_except_break
        vx_it1.index <= operands(*vx_it1.kind).len(),
    invariant
        vx_it1.kind == &data.dfg.values@[*value].kind,
        small(*vx_it1.kind),
        globals@.dom() =~= g0.values@.dom(),
        forall|v: Value| #[trigger] g0.values@.contains_key(v) ==> same_but_users(globals@[v], g0.values@[v]),
    decreases operands(*vx_it1.kind).len() + 1 - vx_it1.index,
//@ end

//@ fn ir::entities::Program::funcs
    ensures *r == self.funcs,
//@ end
//@ fn ir::entities::Program::func_layout
    ensures r@ == self.func_layout@,
//@ end
//@ fn ir::entities::Program::inst_layout
    ensures r@ == self.inst_layout@,
//@ end
//@ fn ir::entities::Program::func
    requires self.funcs@.contains_key(func),
    ensures *r == self.funcs@[func],
//@ end
//@ fn ir::entities::Program::func as=vx_func_refused panics=exit
    ensures self.funcs@.contains_key(func),
//@ rule __e.expect(__m) => vx_expect_or_exit(__e)
//@ end
//@ fn ir::entities::Program::func_mut
    requires old(self).funcs@.contains_key(func),
    ensures *r == old(self).funcs@[func], final(self).funcs@ == old(self).funcs@.insert(func, *final(r)),
        final(self).func_tys == old(self).func_tys, final(self).func_layout == old(self).func_layout, final(self).values == old(self).values, final(self).inst_layout == old(self).inst_layout,
//@ end
//@ fn ir::entities::Program::func_mut as=vx_func_mut_refused panics=exit
    ensures old(self).funcs@.contains_key(func),
//@ rule __e.expect(__m) => vx_expect_or_exit(__e)
//@ end
}
//@ item ir::builder::GlobalBuilder
impl Program {
//@ fn ir::entities::Program::new_value
    ensures *r.program == *old(self), *final(self) == *final(r.program),
//@ end
}
impl ValueKind {
//@ fn ir::entities::ValueKind::is_global_alloc
    ensures r == is_galloc(*self),
//@ end
}
impl<'a> GlobalBuilder<'a> {
//@ fn ir::builder::GlobalBuilder@ValueInserter::insert_value
    requires
        old(self).program.listed(), old(self).program.closed(),
        small(data.kind),
        forall|i: int| 0 <= i < operands(data.kind).len() ==> old(self).program.values@.contains_key(#[trigger] operands(data.kind)[i]),
    ensures
        !old(self).program.values@.contains_key(r),
        final(self).program.listed(), final(self).program.closed(),
        final(self).program.values@.dom() =~= old(self).program.values@.dom().insert(r),
        final(self).program.values@[r].kind == data.kind,
        forall|v: Value| old(self).program.values@.contains_key(v) ==> same_but_users(#[trigger] final(self).program.values@[v], old(self).program.values@[v]),
        final(self).program.inst_layout@ =~= (if is_galloc(data.kind) { old(self).program.inst_layout@.push(r) } else { old(self).program.inst_layout@ }),
        final(self).program.same_funcs(*old(self).program),
//@ entry
        let ghost g0 = *self.program;
//@ exit
        proof { lemma_push(g0.inst_layout@, vx_ret); }
//@ end
}
} // verus!
fn main() {}
