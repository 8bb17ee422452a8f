//@ include shim/base.vx
//@ include shim/kinds.vx
//@ include shim/accessors.vx
//@ include shim/uses.vx
//@ include shim/program.vx
verus! {
/// value `u` of map `m` has `x` among its operands
pub open spec fn uses_in(m: Map<Value, ValueData>, x: Value, u: Value) -> bool {
    m.contains_key(u) && operands(m[u].kind).contains(x)
}
impl Program {
    pub open spec fn func_uses(self, f: Function, x: Value, u: Value) -> bool {
        self.funcs@.contains_key(f) && uses_in(self.funcs@[f].dfg.values@, x, u)
    }
    pub open spec fn used(self, x: Value, u: Value) -> bool {
        uses_in(self.values@, x, u) || exists|f: Function| #[trigger] self.func_uses(f, x, u)
    }
    /// the users recorded for a global value are exactly the values, global or of any function
    /// of the program, that refer to it
    pub open spec fn exact(self) -> bool {
        forall|x: Value, u: Value| #![trigger self.values@[x].used_by@.contains(u)] self.values@.contains_key(x) ==> self.values@[x].used_by@.contains(u) == self.used(x, u)
    }
    pub open spec fn owns(self, f: Function, u: Value) -> bool {
        self.funcs@.contains_key(f) && self.funcs@[f].dfg.values@.contains_key(u)
    }
    /// a value handle belongs to one function, or is global (C15)
    pub open spec fn disjoint(self) -> bool {
        &&& forall|f: Function, u: Value| #[trigger] self.owns(f, u) ==> !self.values@.contains_key(u)
        &&& forall|f: Function, g: Function, u: Value| #[trigger] self.owns(f, u) && #[trigger] self.owns(g, u) ==> f == g
    }
    pub open spec fn sized(self) -> bool {
        &&& forall|u: Value| #[trigger] self.values@.contains_key(u) ==> small(self.values@[u].kind)
        &&& forall|f: Function, u: Value| #[trigger] self.owns(f, u) ==> small(self.funcs@[f].dfg.values@[u].kind)
    }
    /// global values refer to live global values, values of a function to values of that function or globals
    pub open spec fn closed(self) -> bool {
        &&& forall|u: Value, x: Value| #[trigger] uses_in(self.values@, x, u) ==> self.values@.contains_key(x)
        &&& forall|f: Function, u: Value, x: Value| #[trigger] self.func_uses(f, x, u) ==> self.values@.contains_key(x) || self.owns(f, x)
    }
    pub open spec fn wf(self) -> bool {
        self.exact() && self.disjoint() && self.sized() && self.closed()
    }
    pub open spec fn same_funcs(self, o: Program) -> bool {
        self.funcs@ == o.funcs@ && self.func_tys@ == o.func_tys@ && self.func_layout@ == o.func_layout@
    }
}
pub open spec fn same_but_users(a: ValueData, b: ValueData) -> bool {
    a.ty == b.ty && a.name == b.name && a.kind == b.kind
}
/// same live values with the same contents, users aside
pub open spec fn same_skeleton(m: Map<Value, ValueData>, o: Map<Value, ValueData>) -> bool {
    m.dom() =~= o.dom() && forall|v: Value| #[trigger] o.contains_key(v) ==> same_but_users(m[v], o[v])
}
pub open spec fn users_plus(m: Map<Value, ValueData>, o: Map<Value, ValueData>, w: Value, vs: Seq<Value>) -> bool {
    forall|x: Value, u: Value| #![trigger m[x].used_by@.contains(u)] o.contains_key(x) ==> m[x].used_by@.contains(u) == (o[x].used_by@.contains(u) || (u == w && vs.contains(x)))
}
pub open spec fn users_minus(m: Map<Value, ValueData>, o: Map<Value, ValueData>, w: Value, vs: Seq<Value>) -> bool {
    forall|x: Value, u: Value| #![trigger m[x].used_by@.contains(u)] o.contains_key(x) ==> m[x].used_by@.contains(u) == (o[x].used_by@.contains(u) && !(u == w && vs.contains(x)))
}
/// ... plus/minus the uses by the values `done` of the function body `d`
pub open spec fn users_plus_all(m: Map<Value, ValueData>, o: Map<Value, ValueData>, d: Map<Value, ValueData>, done: Seq<Value>) -> bool {
    forall|x: Value, u: Value| #![trigger m[x].used_by@.contains(u)] o.contains_key(x) ==> m[x].used_by@.contains(u) == (o[x].used_by@.contains(u) || (done.contains(u) && operands(d[u].kind).contains(x)))
}
pub open spec fn users_minus_all(m: Map<Value, ValueData>, o: Map<Value, ValueData>, d: Map<Value, ValueData>, done: Seq<Value>) -> bool {
    forall|x: Value, u: Value| #![trigger m[x].used_by@.contains(u)] o.contains_key(x) ==> m[x].used_by@.contains(u) == (o[x].used_by@.contains(u) && !(done.contains(u) && operands(d[u].kind).contains(x)))
}

pub proof fn lemma_same(p: Program, o: Program)
    requires o.wf(), p.values == o.values, p.funcs@ == o.funcs@,
    ensures p.wf(),
{
    assert forall|f: Function, u: Value| #[trigger] p.owns(f, u) == o.owns(f, u) by {}
    assert forall|f: Function, x: Value, u: Value| #[trigger] p.func_uses(f, x, u) == o.func_uses(f, x, u) by {}
    assert forall|x: Value, u: Value| #[trigger] p.used(x, u) == o.used(x, u) by {
        if p.used(x, u) && !uses_in(p.values@, x, u) { let f = choose|f: Function| p.func_uses(f, x, u); assert(o.func_uses(f, x, u)); }
        if o.used(x, u) && !uses_in(o.values@, x, u) { let f = choose|f: Function| o.func_uses(f, x, u); assert(p.func_uses(f, x, u)); }
    }
}
impl ValueKind {
//@ fn ir::entities::ValueKind::is_global_alloc
    ensures r == (*self is GlobalAlloc),
//@ end
}
impl Program {
//@ rule Self::default() => Self::vx_default()
//@ fn ir::entities::Program@Default::default as=vx_default
    ensures r.wf(), r.funcs@ == Map::<Function, FunctionData>::empty(), r.values@ == Map::<Value, ValueData>::empty(),
//@ end
//@ fn ir::entities::Program::new
    ensures r.wf(), r.funcs@ == Map::<Function, FunctionData>::empty(), r.values@ == Map::<Value, ValueData>::empty(),
//@ end

//@ fn ir::entities::Program::new_value_data
    requires
        old(self).wf(),
        small(data.kind),
        data.used_by@ == Set::<Value>::empty(),
        forall|i: int| 0 <= i < operands(data.kind).len() ==> old(self).values@.contains_key(#[trigger] operands(data.kind)[i]),
    ensures
        final(self).wf(),
        !old(self).values@.contains_key(r),
        final(self).values@.dom() =~= old(self).values@.dom().insert(r),
        same_but_users(final(self).values@[r], data),
        forall|v: Value| old(self).values@.contains_key(v) ==> same_but_users(#[trigger] final(self).values@[v], old(self).values@[v]),
        final(self).same_funcs(*old(self)),
//@ entry
        let ghost g0 = *self;
//@ loop 0
    invariant_except_break
        vx_it0.index <= operands(data.kind).len(),
        users_plus(self.values@, g0.values@, value, operands(data.kind).take(vx_it0.index as int)),
    invariant
        vx_it0.kind == &data.kind,
        small(data.kind),
        forall|i: int| 0 <= i < operands(data.kind).len() ==> g0.values@.contains_key(#[trigger] operands(data.kind)[i]),
        same_skeleton(self.values@, g0.values@),
        self.same_funcs(g0),
    ensures
        users_plus(self.values@, g0.values@, value, operands(data.kind)),
        same_skeleton(self.values@, g0.values@),
        self.same_funcs(g0),
    decreases operands(data.kind).len() - vx_it0.index,
//@ loopstart 0
        proof {
            assert(operands(data.kind).take(operands(data.kind).len() as int) =~= operands(data.kind));
            if vx_it0.index < operands(data.kind).len() {
                assert(g0.values@.contains_key(operands(data.kind)[vx_it0.index as int]));
                lemma_take_step(operands(data.kind), vx_it0.index as int);
            }
        }
//@ exit
        proof {
            assert forall|f: Function, u: Value| #[trigger] self.owns(f, u) == g0.owns(f, u) by {}
            assert forall|f: Function, x: Value, u: Value| #[trigger] self.func_uses(f, x, u) == g0.func_uses(f, x, u) by {}
            assert forall|x: Value, u: Value| #[trigger] uses_in(self.values@, x, u) == (uses_in(g0.values@, x, u) || (u == value && operands(data.kind).contains(x))) by {}
            assert forall|x: Value| operands(data.kind).contains(x) implies #[trigger] g0.values@.contains_key(x) by {
                let k = operands(data.kind).index_of(x);
                assert(g0.values@.contains_key(operands(data.kind)[k]));
            }
            assert forall|x: Value, u: Value| self.values@.contains_key(x) implies (#[trigger] self.values@[x].used_by@.contains(u)) == self.used(x, u) by {
                if self.used(x, u) && !uses_in(self.values@, x, u) { let f = choose|f: Function| self.func_uses(f, x, u); assert(g0.func_uses(f, x, u)); assert(g0.owns(f, u)); }
                if g0.used(x, u) && !uses_in(g0.values@, x, u) { let f = choose|f: Function| g0.func_uses(f, x, u); assert(self.func_uses(f, x, u)); assert(g0.owns(f, u)); }
                if x == value {
                    assert(!g0.used(x, u)) by {
                        if g0.used(x, u) && !uses_in(g0.values@, x, u) { let f = choose|f: Function| g0.func_uses(f, x, u); assert(g0.owns(f, x)); }
                    }
                    assert(!operands(data.kind).contains(value));
                    assert(!uses_in(self.values@, x, u));
                } else {
                    assert(g0.values@.contains_key(x));
                }
            }
        }
//@ end
}

#[verifier::external_body]
pub fn vx_starts_with(s: &String, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c), { unimplemented!() }
/// the number of bytes of a string: more than one iff there is more than one character, or one that needs several
#[verifier::external_body]
pub fn vx_str_len(s: &String) -> (r: usize) ensures r >= s@.len(), r == 0 <==> s@.len() == 0, { unimplemented!() }
/// A name is absent or `%`/`@` followed by at least one more character.
pub open spec fn name_ok(n: Option<String>) -> bool {
    match n {
        None => true,
        Some(s) => s@.len() > 1 && (s@[0] == '%' || s@[0] == '@'),
    }
}
impl ValueData {
//@ fn ir::entities::ValueData::set_name
    requires name_ok(name),
    ensures *final(self) == (ValueData { name: name, ..*old(self) }),
//@ rule __e.as_ref().is_none_or(|__p| __b) => match &__e { Some(__p) => __b, None => true }
//@ rule __e.starts_with('%') => vx_starts_with(__e, '%')
//@ rule __e.starts_with('@') => vx_starts_with(__e, '@')
//@ rule __e.len() => vx_str_len(__e)
//@ end
}
impl Program {
/// naming a global value changes its name and nothing else
//@ fn ir::entities::Program::set_value_name
    requires old(self).values@.contains_key(value), name_ok(name),
    ensures
        final(self).values@ =~= old(self).values@.insert(value, ValueData { name: name, ..old(self).values@[value] }),
        final(self).same_funcs(*old(self)), final(self).inst_layout@ == old(self).inst_layout@,
        old(self).wf() ==> final(self).wf(),
//@ exit
    proof {
        let (a, b) = (*old(self), *self);
        assert(b.values@ =~= a.values@.insert(value, ValueData { name: name, ..a.values@[value] }));
        assert forall|x: Value, u: Value| #[trigger] b.used(x, u) == a.used(x, u) by {
            assert(uses_in(b.values@, x, u) == uses_in(a.values@, x, u));
            if a.used(x, u) && !uses_in(a.values@, x, u) { let f = choose|f: Function| #[trigger] a.func_uses(f, x, u); assert(b.func_uses(f, x, u)); }
            if b.used(x, u) && !uses_in(b.values@, x, u) { let f = choose|f: Function| #[trigger] b.func_uses(f, x, u); assert(a.func_uses(f, x, u)); }
        }
        if a.wf() {
            assert forall|u: Value, x: Value| #[trigger] uses_in(b.values@, x, u) implies b.values@.contains_key(x) by { assert(uses_in(a.values@, x, u)); }
            assert forall|f: Function, u: Value, x: Value| #[trigger] b.func_uses(f, x, u) implies b.values@.contains_key(x) || b.owns(f, x) by { assert(a.func_uses(f, x, u)); assert(a.values@.contains_key(x) || a.owns(f, x)); }
            assert forall|f: Function, u: Value| #[trigger] b.owns(f, u) implies !b.values@.contains_key(u) by { assert(a.owns(f, u)); }
            assert forall|f: Function, g: Function, u: Value| #[trigger] b.owns(f, u) && #[trigger] b.owns(g, u) implies f == g by { assert(a.owns(f, u) && a.owns(g, u)); }
            assert(b.closed()); assert(b.disjoint());
            assert forall|u: Value| #[trigger] b.values@.contains_key(u) implies small(b.values@[u].kind) by { assert(a.values@.contains_key(u)); }
            assert forall|f: Function, u: Value| #[trigger] b.owns(f, u) implies small(b.funcs@[f].dfg.values@[u].kind) by { assert(a.owns(f, u)); }
            assert(b.sized());
            assert forall|x: Value, u: Value| #![trigger b.values@[x].used_by@.contains(u)] b.values@.contains_key(x) implies b.values@[x].used_by@.contains(u) == b.used(x, u) by { assert(a.values@[x].used_by@.contains(u) == a.used(x, u)); }
        }
    }
//@ end
// refused while somebody uses the value
//@ fn ir::entities::Program::remove_value panics=exit
    requires
        old(self).wf(),
        old(self).values@.contains_key(value),
        old(self).values@[value].kind is GlobalAlloc ==> old(self).inst_layout@.contains(value),
    ensures
        forall|u: Value| !old(self).values@[value].used_by@.contains(u),
        final(self).wf(),
        r == old(self).values@[value],
        final(self).values@.dom() =~= old(self).values@.dom().remove(value),
        forall|v: Value| v != value && old(self).values@.contains_key(v) ==> same_but_users(#[trigger] final(self).values@[v], old(self).values@[v]),
        final(self).same_funcs(*old(self)),
//@ entry
        let ghost g0 = *self;
//@ beforeloop 0
        let ghost s0 = *self;
        proof {
            assert forall|u: Value| !(#[trigger] g0.used(value, u)) by { assert(!g0.values@[value].used_by@.contains(u)); }
            assert forall|x: Value| operands(data.kind).contains(x) implies #[trigger] s0.values@.contains_key(x) by {
                assert(uses_in(g0.values@, x, value));
                assert(!g0.used(value, value));
            }
        }
//@ loop 0
    invariant_except_break
        vx_it0.index <= operands(data.kind).len(),
        users_minus(self.values@, s0.values@, value, operands(data.kind).take(vx_it0.index as int)),
    invariant
        vx_it0.kind == &data.kind,
        small(data.kind),
        forall|x: Value| operands(data.kind).contains(x) ==> #[trigger] s0.values@.contains_key(x),
        same_skeleton(self.values@, s0.values@),
        self.same_funcs(s0),
    ensures
        users_minus(self.values@, s0.values@, value, operands(data.kind)),
        same_skeleton(self.values@, s0.values@),
        self.same_funcs(s0),
    decreases operands(data.kind).len() - vx_it0.index,
//@ loopstart 0
        proof {
            assert(operands(data.kind).take(operands(data.kind).len() as int) =~= operands(data.kind));
            if vx_it0.index < operands(data.kind).len() {
                assert(operands(data.kind).contains(operands(data.kind)[vx_it0.index as int]));
                assert(s0.values@.contains_key(operands(data.kind)[vx_it0.index as int]));
                lemma_take_step(operands(data.kind), vx_it0.index as int);
            }
        }
//@ exit
        proof {
            assert forall|f: Function, u: Value| #[trigger] self.owns(f, u) == g0.owns(f, u) by {}
            assert forall|f: Function, x: Value, u: Value| #[trigger] self.func_uses(f, x, u) == g0.func_uses(f, x, u) by {}
            assert forall|x: Value, u: Value| #[trigger] uses_in(self.values@, x, u) == (uses_in(g0.values@, x, u) && u != value) by {}
            assert forall|x: Value, u: Value| #[trigger] uses_in(self.values@, x, u) implies x != value by { assert(!g0.used(value, u)); }
            assert forall|f: Function, x: Value, u: Value| #[trigger] self.func_uses(f, x, u) implies x != value by { assert(g0.func_uses(f, x, u)); assert(!g0.used(value, u)); }
            assert forall|x: Value, u: Value| self.values@.contains_key(x) implies (#[trigger] self.values@[x].used_by@.contains(u)) == self.used(x, u) by {
                if self.used(x, u) && !uses_in(self.values@, x, u) { let f = choose|f: Function| self.func_uses(f, x, u); assert(g0.func_uses(f, x, u)); assert(g0.owns(f, u)); }
                if g0.used(x, u) && !uses_in(g0.values@, x, u) { let f = choose|f: Function| g0.func_uses(f, x, u); assert(self.func_uses(f, x, u)); assert(g0.owns(f, u)); }
                assert(g0.values@.contains_key(x));
                if u == value && operands(data.kind).contains(x) {
                    assert(!self.used(x, u)) by {
                        if self.used(x, u) { let f = choose|f: Function| self.func_uses(f, x, u); assert(g0.owns(f, u)); }
                    }
                }
            }
        }
//@ end

//@ fn ir::entities::Program::remove_func
    requires
        old(self).wf(),
        old(self).funcs@.contains_key(func) ==> old(self).func_layout@.contains(func),
    ensures
        final(self).wf(),
        r is Some == old(self).funcs@.contains_key(func),
        r matches Some(d) ==> d == old(self).funcs@[func],
        final(self).funcs@ == old(self).funcs@.remove(func),
        same_skeleton(final(self).values@, old(self).values@),
//@ entry
        let ghost g0 = *self;
        proof {
            if !self.funcs@.contains_key(func) { assert(self.funcs@.remove(func) =~= self.funcs@); }
            assert forall|p: Program| p.values == g0.values && p.funcs@ == g0.funcs@ implies #[trigger] p.wf() by { lemma_same(p, g0); }
        }
//@ beforeloop 0
        proof {
            assert forall|u: Value| #[trigger] data.dfg.values@.contains_key(u) implies small(data.dfg.values@[u].kind) by { assert(g0.owns(func, u)); }
        }
//@ loop 0
    invariant_except_break
        vx_it0.pos() <= vx_it0.order().len(),
        users_minus_all(globals@, g0.values@, data.dfg.values@, vx_it0.order().take(vx_it0.pos() as int)),
    invariant
        vx_it0.map() == data.dfg.values@,
        vx_it0.order() == map_order(data.dfg.values@),
        map_order(data.dfg.values@).no_duplicates(),
        forall|k: Value| map_order(data.dfg.values@).contains(k) == #[trigger] data.dfg.values@.contains_key(k),
        forall|u: Value| #[trigger] data.dfg.values@.contains_key(u) ==> small(data.dfg.values@[u].kind),
        same_skeleton(globals@, g0.values@),
    ensures
        users_minus_all(globals@, g0.values@, data.dfg.values@, map_order(data.dfg.values@)),
        same_skeleton(globals@, g0.values@),
    decreases vx_it0.order().len() - vx_it0.pos(),
//@ loopstart 0
        let ghost k0 = vx_it0.pos() as int;
        proof {
            assert(vx_it0.order().take(vx_it0.order().len() as int) =~= vx_it0.order());
            if vx_it0.pos() < vx_it0.order().len() {
                assert(vx_it0.order().contains(vx_it0.order()[k0]));
                assert(data.dfg.values@.contains_key(vx_it0.order()[k0]));
                lemma_take_step(vx_it0.order(), k0);
            }
        }
//@ beforeloop 1
        let ghost s0 = globals@;
//@ loop 1
    invariant_except_break
        vx_it1.index <= operands(*vx_it1.kind).len(),
        users_minus(globals@, s0, *value, operands(*vx_it1.kind).take(vx_it1.index as int)),
    invariant
        vx_it1.kind == &data.dfg.values@[*value].kind,
        small(*vx_it1.kind),
        same_skeleton(globals@, s0),
    ensures
        users_minus(globals@, s0, *value, operands(data.dfg.values@[*value].kind)),
        same_skeleton(globals@, s0),
    decreases operands(*vx_it1.kind).len() - vx_it1.index,
//@ loopstart 1
        proof {
            assert(operands(*vx_it1.kind).take(operands(*vx_it1.kind).len() as int) =~= operands(*vx_it1.kind));
            if vx_it1.index < operands(*vx_it1.kind).len() { lemma_take_step(operands(*vx_it1.kind), vx_it1.index as int); }
        }
//@ exit
        proof {
            if vx_ret is Some {
            let d = data.dfg.values@;
            assert(d == g0.funcs@[func].dfg.values@);
            assert forall|f: Function, u: Value| #[trigger] self.owns(f, u) == (g0.owns(f, u) && f != func) by {}
            assert forall|f: Function, x: Value, u: Value| #[trigger] self.func_uses(f, x, u) == (g0.func_uses(f, x, u) && f != func) by {}
            assert forall|x: Value, u: Value| #[trigger] uses_in(self.values@, x, u) == uses_in(g0.values@, x, u) by {}
            assert forall|x: Value, u: Value| self.values@.contains_key(x) implies (#[trigger] self.values@[x].used_by@.contains(u)) == self.used(x, u) by {
                assert(g0.values@.contains_key(x));
                assert(g0.func_uses(func, x, u) == (map_order(d).contains(u) && operands(d[u].kind).contains(x)));
                if self.used(x, u) && !uses_in(self.values@, x, u) { let f = choose|f: Function| self.func_uses(f, x, u); assert(g0.func_uses(f, x, u)); assert(g0.owns(f, u)); }
                if g0.used(x, u) && !uses_in(g0.values@, x, u) { let f = choose|f: Function| g0.func_uses(f, x, u); assert(g0.owns(f, u)); if f != func { assert(self.func_uses(f, x, u)); } }
                if g0.func_uses(func, x, u) {
                    assert(g0.owns(func, u));
                    assert(!self.used(x, u)) by {
                        if self.used(x, u) { let f = choose|f: Function| self.func_uses(f, x, u); assert(g0.owns(f, u)); }
                    }
                }
            }
            }
        }
//@ end

//@ fn ir::entities::Program::new_func
    requires
        old(self).wf(),
        forall|u: Value| #[trigger] data.dfg.values@.contains_key(u) ==> small(data.dfg.values@[u].kind) && !old(self).values@.contains_key(u),
        forall|u: Value, f: Function| #[trigger] data.dfg.values@.contains_key(u) ==> !(#[trigger] old(self).owns(f, u)),
        forall|u: Value, x: Value| #[trigger] uses_in(data.dfg.values@, x, u) ==> old(self).values@.contains_key(x) || data.dfg.values@.contains_key(x),
    ensures
        final(self).wf(),
        !old(self).funcs@.contains_key(r),
        final(self).funcs@.dom() =~= old(self).funcs@.dom().insert(r),
        forall|f: Function| old(self).funcs@.contains_key(f) ==> #[trigger] final(self).funcs@[f] == old(self).funcs@[f],
        final(self).funcs@[r].dfg.values == data.dfg.values,
        final(self).funcs@[r].dfg.bbs == data.dfg.bbs,
        final(self).funcs@[r].ty == data.ty, final(self).funcs@[r].name == data.name,
        final(self).funcs@[r].params == data.params, final(self).funcs@[r].layout == data.layout,
        final(self).func_tys@ =~= old(self).func_tys@.insert(r, data.ty),
        final(self).func_layout@ =~= old(self).func_layout@.push(r),
        final(self).inst_layout@ == old(self).inst_layout@,
        same_skeleton(final(self).values@, old(self).values@),
//@ entry
        let ghost g0 = *self;
        let ghost d = data.dfg.values@;
//@ loop 0
    invariant_except_break
        vx_it0.pos() <= vx_it0.order().len(),
        users_plus_all(globals@, g0.values@, d, vx_it0.order().take(vx_it0.pos() as int)),
    invariant
        vx_it0.map() == d,
        vx_it0.order() == map_order(d),
        map_order(d).no_duplicates(),
        forall|k: Value| map_order(d).contains(k) == #[trigger] d.contains_key(k),
        forall|u: Value| #[trigger] d.contains_key(u) ==> small(d[u].kind),
        same_skeleton(globals@, g0.values@),
    ensures
        users_plus_all(globals@, g0.values@, d, map_order(d)),
        same_skeleton(globals@, g0.values@),
    decreases vx_it0.order().len() - vx_it0.pos(),
//@ loopstart 0
        let ghost k0 = vx_it0.pos() as int;
        proof {
            assert(vx_it0.order().take(vx_it0.order().len() as int) =~= vx_it0.order());
            if vx_it0.pos() < vx_it0.order().len() {
                assert(vx_it0.order().contains(vx_it0.order()[k0]));
                assert(d.contains_key(vx_it0.order()[k0]));
                lemma_take_step(vx_it0.order(), k0);
            }
        }
//@ beforeloop 1
        let ghost s0 = globals@;
//@ loop 1
    invariant_except_break
        vx_it1.index <= operands(*vx_it1.kind).len(),
        users_plus(globals@, s0, *value, operands(*vx_it1.kind).take(vx_it1.index as int)),
    invariant
        vx_it1.kind == &d[*value].kind,
        small(*vx_it1.kind),
        same_skeleton(globals@, s0),
    ensures
        users_plus(globals@, s0, *value, operands(d[*value].kind)),
        same_skeleton(globals@, s0),
    decreases operands(*vx_it1.kind).len() - vx_it1.index,
//@ loopstart 1
        proof {
            assert(operands(*vx_it1.kind).take(operands(*vx_it1.kind).len() as int) =~= operands(*vx_it1.kind));
            if vx_it1.index < operands(*vx_it1.kind).len() { lemma_take_step(operands(*vx_it1.kind), vx_it1.index as int); }
        }
//@ exit
        proof {
            assert forall|f: Function, u: Value| #[trigger] self.owns(f, u) == (g0.owns(f, u) || (f == vx_ret && d.contains_key(u))) by {}
            assert forall|f: Function, x: Value, u: Value| #[trigger] self.func_uses(f, x, u) == (g0.func_uses(f, x, u) || (f == vx_ret && uses_in(d, x, u))) by {}
            assert forall|x: Value, u: Value| #[trigger] uses_in(self.values@, x, u) == uses_in(g0.values@, x, u) by {}
            assert forall|x: Value, u: Value| self.values@.contains_key(x) implies (#[trigger] self.values@[x].used_by@.contains(u)) == self.used(x, u) by {
                assert(g0.values@.contains_key(x));
                assert(uses_in(d, x, u) == (map_order(d).contains(u) && operands(d[u].kind).contains(x)));
                if self.used(x, u) && !uses_in(self.values@, x, u) { let f = choose|f: Function| self.func_uses(f, x, u); if f != vx_ret { assert(g0.func_uses(f, x, u)); } }
                if g0.used(x, u) && !uses_in(g0.values@, x, u) { let f = choose|f: Function| g0.func_uses(f, x, u); assert(self.func_uses(f, x, u)); }
                if uses_in(d, x, u) { assert(self.func_uses(vx_ret, x, u)); }
            }
            assert forall|f: Function, x: Value, u: Value| #[trigger] self.func_uses(f, x, u) implies self.values@.contains_key(x) || self.owns(f, x) by {
                if f == vx_ret && uses_in(d, x, u) { }
                else { assert(g0.func_uses(f, x, u)); assert(g0.values@.contains_key(x) || g0.owns(f, x)); }
            }
        }
//@ end
}
} // verus!
fn main() {}
