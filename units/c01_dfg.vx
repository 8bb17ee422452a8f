//@ include shim/base.vx
//@ include shim/kinds.vx
//@ include shim/accessors.vx
//@ include shim/uses.vx
//@ include shim/dfg.vx
verus! {
#[verifier::external_body]
pub fn vx_starts_with(s: &String, c: char) -> (r: bool)
    ensures r == (s@.len() > 0 && s@[0] == c),
{ unimplemented!() }
/// byte length: at least the number of characters
#[verifier::external_body]
pub fn vx_str_len(s: &String) -> (r: usize)
    ensures r >= s@.len(), (s@.len() == 0) == (r == 0),
{ unimplemented!() }
/// A name is absent or `%`/`@` followed by at least one more character.
pub open spec fn name_ok(n: Option<String>) -> bool {
    match n {
        None => true,
        Some(s) => s@.len() > 1 && (s@[0] == '%' || s@[0] == '@'),
    }
}
impl ValueData {
//@ fn ir::entities::ValueData::set_name
    requires name_ok(name),
    ensures *final(self) == (ValueData { name: name, ..*old(self) }),
//@ rule __e.as_ref().is_none_or(|__p| __b) => match &__e { Some(__p) => __b, None => true }
//@ rule __e.starts_with('%') => vx_starts_with(__e, '%')
//@ rule __e.starts_with('@') => vx_starts_with(__e, '@')
//@ rule __e.len() => vx_str_len(__e)
//@ end
}

impl DataFlowGraph {
//@ fn ir::dfg::DataFlowGraph::new
    ensures r.values@ == Map::<Value, ValueData>::empty(), r.bbs@ == Map::<BasicBlock, BasicBlockData>::empty(), r.globals@ == Map::<Value, ValueData>::empty(),
        r.wf(),
//@ end

//@ fn ir::dfg::DataFlowGraph::bb_mut
    requires old(self).bbs@.contains_key(bb),
    ensures
        *r == old(self).bbs@[bb],
        final(self).globals == old(self).globals,
        final(self).values == old(self).values,
        final(self).func_tys == old(self).func_tys,
        final(self).bbs@ == old(self).bbs@.insert(bb, *final(r)),
//@ end

//@ fn ir::dfg::DataFlowGraph::new_value_data
    requires
        old(self).wf(),
        old(self).operands_ok(data.kind),
        data.used_by@ == Set::<Value>::empty(),
        !old(self).exists_val(Value(next_local())),
        forall|x: Value| old(self).globals@.contains_key(x) ==> !old(self).user(x, Value(next_local())),
    ensures
        r == Value(next_local()),
        final(self).wf(),
        final(self).values@.dom() =~= old(self).values@.dom().insert(r),
        same_data(final(self).values@[r], data),
        forall|x: Value| old(self).values@.contains_key(x) ==> same_data(#[trigger] final(self).values@[x], old(self).values@[x]),
        final(self).globals@.dom() =~= old(self).globals@.dom(),
        forall|x: Value| old(self).globals@.contains_key(x) ==> same_data(#[trigger] final(self).globals@[x], old(self).globals@[x]),
        final(self).bbs@.dom() =~= old(self).bbs@.dom(),
        forall|x: BasicBlock| old(self).bbs@.contains_key(x) ==> (#[trigger] final(self).bbs@[x]).params == old(self).bbs@[x].params && final(self).bbs@[x].name == old(self).bbs@[x].name,
        final(self).foreign_users_kept(*old(self)),
//@ beforeloop 0
        let ghost s0 = *self;
//@ loop 0
    invariant_except_break
        vx_it0.index <= operands(data.kind).len(),
        self.users_plus(s0, value, operands(data.kind).take(vx_it0.index as int)),
    invariant
        vx_it0.kind == &data.kind,
        s0.operands_ok(data.kind),
        self.same_skeleton(s0),
        self.same_bb_users(s0),
    ensures
        self.same_skeleton(s0),
        self.users_plus(s0, value, operands(data.kind)),
        self.same_bb_users(s0),
    decreases operands(data.kind).len() - vx_it0.index,
//@ loopstart 0
        proof {
            assert(operands(data.kind).take(operands(data.kind).len() as int) =~= operands(data.kind));
            if vx_it0.index < operands(data.kind).len() {
                assert(s0.exists_val(operands(data.kind)[vx_it0.index as int]));
                lemma_take_step(operands(data.kind), vx_it0.index as int);
            }
        }
//@ beforeloop 1
        let ghost s1 = *self;
//@ loop 1
    invariant_except_break
        vx_it1.index <= targets(data.kind).len(),
        self.bb_users_plus(s1, value, targets(data.kind).take(vx_it1.index as int)),
    invariant
        vx_it1.kind == &data.kind,
        s1.operands_ok(data.kind),
        self.same_skeleton(s1),
        self.same_users(s1),
    ensures
        self.same_skeleton(s1),
        self.bb_users_plus(s1, value, targets(data.kind)),
        self.same_users(s1),
    decreases targets(data.kind).len() - vx_it1.index,
//@ loopstart 1
        proof {
            assert(targets(data.kind).take(targets(data.kind).len() as int) =~= targets(data.kind));
            if vx_it1.index < targets(data.kind).len() {
                assert(s1.bbs@.contains_key(targets(data.kind)[vx_it1.index as int]));
                lemma_take_step(targets(data.kind), vx_it1.index as int);
            }
        }
//@ entry
        let ghost g0 = *self;
//@ exit
        proof {
            assert forall|x: Value, u: Value| g0.exists_val(x) implies #[trigger] self.user(x, u) == (g0.user(x, u) || (u == value && operands(data.kind).contains(x))) by {}
            assert forall|x: BasicBlock, u: Value| g0.bbs@.contains_key(x) implies #[trigger] self.bb_user(x, u) == (g0.bb_user(x, u) || (u == value && targets(data.kind).contains(x))) by {}
            assert forall|u: Value| !(#[trigger] self.user(value, u)) by {}
        }
//@ end

//@ fn ir::dfg::DataFlowGraph::replace_value_with_data
    requires
        old(self).wf(),
        old(self).values@.contains_key(value),
        old(self).operands_ok(data.kind),
        !operands(data.kind).contains(value),
        !operands(old(self).values@[value].kind).contains(value),
    ensures
        final(self).wf(),
        final(self).values@.dom() =~= old(self).values@.dom(),
        same_data(final(self).values@[value], data),
        forall|x: Value| old(self).values@.contains_key(x) && x != value ==> same_data(#[trigger] final(self).values@[x], old(self).values@[x]),
        final(self).globals@.dom() =~= old(self).globals@.dom(),
        forall|x: Value| old(self).globals@.contains_key(x) ==> same_data(#[trigger] final(self).globals@[x], old(self).globals@[x]),
        final(self).bbs@.dom() =~= old(self).bbs@.dom(),
        forall|x: BasicBlock| old(self).bbs@.contains_key(x) ==> (#[trigger] final(self).bbs@[x]).params == old(self).bbs@[x].params && final(self).bbs@[x].name == old(self).bbs@[x].name,
        final(self).foreign_users_kept(*old(self)),
//@ beforeloop 0
        let ghost s0 = *self;
        proof {
            assert forall|x: Value, u: Value| #![trigger s0.user(x, u)] #![trigger g0.user(x, u)] x != value && s0.exists_val(x) implies s0.user(x, u) == g0.user(x, u) by {}
            if s0.same_bb_users(g0) { assert forall|x: BasicBlock, u: Value| #![trigger s0.bb_user(x, u)] #![trigger g0.bb_user(x, u)] s0.bb_user(x, u) == g0.bb_user(x, u) by {} }
            assert forall|i: int| 0 <= i < operands(old.kind).len() implies s0.exists_val(#[trigger] operands(old.kind)[i]) by {
                assert(operands(old.kind).contains(operands(old.kind)[i]));
                assert(g0.exists_val(operands(old.kind)[i]));
                assert(g0.user(operands(old.kind)[i], value));
                
            }
        }
//@ loop 0
    invariant_except_break
        vx_it0.index <= operands(old.kind).len(),
        self.users_minus(s0, value, operands(old.kind).take(vx_it0.index as int)),
    invariant
        vx_it0.kind == &old.kind,
        s0.operands_ok(old.kind),
        self.same_skeleton(s0),
        self.same_bb_users(s0),
    ensures
        self.same_skeleton(s0),
        self.users_minus(s0, value, operands(old.kind)),
        self.same_bb_users(s0),
    decreases operands(old.kind).len() - vx_it0.index,
//@ loopstart 0
        proof {
            assert(operands(old.kind).take(operands(old.kind).len() as int) =~= operands(old.kind));
            if vx_it0.index < operands(old.kind).len() {
                assert(s0.exists_val(operands(old.kind)[vx_it0.index as int]));
                lemma_take_step(operands(old.kind), vx_it0.index as int);
            }
        }
//@ beforeloop 1
        let ghost s1 = *self;
//@ loop 1
    invariant_except_break
        vx_it1.index <= targets(old.kind).len(),
        self.bb_users_minus(s1, value, targets(old.kind).take(vx_it1.index as int)),
    invariant
        vx_it1.kind == &old.kind,
        s1.operands_ok(old.kind),
        self.same_skeleton(s1),
        self.same_users(s1),
    ensures
        self.same_skeleton(s1),
        self.bb_users_minus(s1, value, targets(old.kind)),
        self.same_users(s1),
    decreases targets(old.kind).len() - vx_it1.index,
//@ loopstart 1
        proof {
            assert(targets(old.kind).take(targets(old.kind).len() as int) =~= targets(old.kind));
            if vx_it1.index < targets(old.kind).len() {
                assert(s1.bbs@.contains_key(targets(old.kind)[vx_it1.index as int]));
                lemma_take_step(targets(old.kind), vx_it1.index as int);
            }
        }
//@ beforeloop 2
        let ghost s2 = *self;
//@ loop 2
    invariant_except_break
        vx_it2.index <= operands(data.kind).len(),
        self.users_plus(s2, value, operands(data.kind).take(vx_it2.index as int)),
    invariant
        vx_it2.kind == &data.kind,
        s2.operands_ok(data.kind),
        self.same_skeleton(s2),
        self.same_bb_users(s2),
    ensures
        self.same_skeleton(s2),
        self.users_plus(s2, value, operands(data.kind)),
        self.same_bb_users(s2),
    decreases operands(data.kind).len() - vx_it2.index,
//@ loopstart 2
        proof {
            assert(operands(data.kind).take(operands(data.kind).len() as int) =~= operands(data.kind));
            if vx_it2.index < operands(data.kind).len() {
                assert(s2.exists_val(operands(data.kind)[vx_it2.index as int]));
                lemma_take_step(operands(data.kind), vx_it2.index as int);
            }
        }
//@ beforeloop 3
        let ghost s3 = *self;
//@ loop 3
    invariant_except_break
        vx_it3.index <= targets(data.kind).len(),
        self.bb_users_plus(s3, value, targets(data.kind).take(vx_it3.index as int)),
    invariant
        vx_it3.kind == &data.kind,
        s3.operands_ok(data.kind),
        self.same_skeleton(s3),
        self.same_users(s3),
    ensures
        self.same_skeleton(s3),
        self.bb_users_plus(s3, value, targets(data.kind)),
        self.same_users(s3),
    decreases targets(data.kind).len() - vx_it3.index,
//@ loopstart 3
        proof {
            assert(targets(data.kind).take(targets(data.kind).len() as int) =~= targets(data.kind));
            if vx_it3.index < targets(data.kind).len() {
                assert(s3.bbs@.contains_key(targets(data.kind)[vx_it3.index as int]));
                lemma_take_step(targets(data.kind), vx_it3.index as int);
            }
        }
//@ entry
        let ghost g0 = *self;
//@ exit
        proof {
            assert(g0.wf());
            assert forall|x: Value, u: Value| g0.exists_val(x) && x != value implies #[trigger] self.user(x, u) == ((g0.user(x, u) && !(u == value && operands(g0.values@[value].kind).contains(x))) || (u == value && operands(data.kind).contains(x))) by {}
            assert forall|x: BasicBlock, u: Value| g0.bbs@.contains_key(x) implies #[trigger] self.bb_user(x, u) == ((g0.bb_user(x, u) && !(u == value && targets(g0.values@[value].kind).contains(x))) || (u == value && targets(data.kind).contains(x))) by {}
            assert forall|x: Value, u: Value| g0.exists_val(x) && x != value implies #[trigger] self.user(x, u) == ((g0.user(x, u) && u != value) || (u == value && operands(data.kind).contains(x))) by {}
            assert forall|x: BasicBlock, u: Value| g0.bbs@.contains_key(x) implies #[trigger] self.bb_user(x, u) == ((g0.bb_user(x, u) && u != value) || (u == value && targets(data.kind).contains(x))) by {}
            assert forall|u: Value| #[trigger] self.user(value, u) == g0.user(value, u) by {}
        }
//@ end

//@ fn ir::dfg::DataFlowGraph::update_value
    requires
        old(self).wf(),
        old(self).values@.contains_key(value),
        forall|d: &mut ValueData| #[trigger] f.requires((d,)),
        forall|d: &mut ValueData| #[trigger] f.ensures((d,), ()) ==> old(self).operands_ok(final(d).kind) && !operands(final(d).kind).contains(value),
        !operands(old(self).values@[value].kind).contains(value),
    ensures
        final(self).wf(),
        final(self).values@.dom() =~= old(self).values@.dom(),
        forall|u: Value| final(self).user(value, u) == old(self).user(value, u),
        forall|x: Value| old(self).values@.contains_key(x) && x != value ==> same_data(#[trigger] final(self).values@[x], old(self).values@[x]),
        final(self).globals@.dom() =~= old(self).globals@.dom(),
        forall|x: Value| old(self).globals@.contains_key(x) ==> same_data(#[trigger] final(self).globals@[x], old(self).globals@[x]),
        final(self).bbs@.dom() =~= old(self).bbs@.dom(),
        forall|x: BasicBlock| old(self).bbs@.contains_key(x) ==> (#[trigger] final(self).bbs@[x]).params == old(self).bbs@[x].params && final(self).bbs@[x].name == old(self).bbs@[x].name,
        final(self).foreign_users_kept(*old(self)),
//@ beforeloop 0
        let ghost s0 = *self;
        proof {
            assert forall|x: Value, u: Value| #![trigger s0.user(x, u)] #![trigger g0.user(x, u)] x != value && s0.exists_val(x) implies s0.user(x, u) == g0.user(x, u) by {}
            assert forall|x: BasicBlock, u: Value| #![trigger s0.bb_user(x, u)] #![trigger g0.bb_user(x, u)] s0.bb_user(x, u) == g0.bb_user(x, u) by {}
            assert forall|i: int| 0 <= i < operands(data.kind).len() implies s0.exists_val(#[trigger] operands(data.kind)[i]) by {
                assert(operands(data.kind).contains(operands(data.kind)[i]));
                assert(g0.exists_val(operands(data.kind)[i]));
                assert(g0.user(operands(data.kind)[i], value));
                
            }
        }
//@ loop 0
    invariant_except_break
        vx_it0.index <= operands(data.kind).len(),
        self.users_minus(s0, value, operands(data.kind).take(vx_it0.index as int)),
    invariant
        vx_it0.kind == &data.kind,
        s0.operands_ok(data.kind),
        self.same_skeleton(s0),
        self.same_bb_users(s0),
    ensures
        self.same_skeleton(s0),
        self.users_minus(s0, value, operands(data.kind)),
        self.same_bb_users(s0),
    decreases operands(data.kind).len() - vx_it0.index,
//@ loopstart 0
        proof {
            assert(operands(data.kind).take(operands(data.kind).len() as int) =~= operands(data.kind));
            if vx_it0.index < operands(data.kind).len() {
                assert(s0.exists_val(operands(data.kind)[vx_it0.index as int]));
                lemma_take_step(operands(data.kind), vx_it0.index as int);
            }
        }
//@ beforeloop 1
        let ghost s1 = *self;
//@ loop 1
    invariant_except_break
        vx_it1.index <= targets(data.kind).len(),
        self.bb_users_minus(s1, value, targets(data.kind).take(vx_it1.index as int)),
    invariant
        vx_it1.kind == &data.kind,
        s1.operands_ok(data.kind),
        self.same_skeleton(s1),
        self.same_users(s1),
    ensures
        self.same_skeleton(s1),
        self.bb_users_minus(s1, value, targets(data.kind)),
        self.same_users(s1),
    decreases targets(data.kind).len() - vx_it1.index,
//@ loopstart 1
        proof {
            assert(targets(data.kind).take(targets(data.kind).len() as int) =~= targets(data.kind));
            if vx_it1.index < targets(data.kind).len() {
                assert(s1.bbs@.contains_key(targets(data.kind)[vx_it1.index as int]));
                lemma_take_step(targets(data.kind), vx_it1.index as int);
            }
        }
//@ beforeloop 2
        let ghost s2 = *self;
//@ loop 2
    invariant_except_break
        vx_it2.index <= operands(data.kind).len(),
        self.users_plus(s2, value, operands(data.kind).take(vx_it2.index as int)),
    invariant
        vx_it2.kind == &data.kind,
        s2.operands_ok(data.kind),
        self.same_skeleton(s2),
        self.same_bb_users(s2),
    ensures
        self.same_skeleton(s2),
        self.users_plus(s2, value, operands(data.kind)),
        self.same_bb_users(s2),
    decreases operands(data.kind).len() - vx_it2.index,
//@ loopstart 2
        proof {
            assert(operands(data.kind).take(operands(data.kind).len() as int) =~= operands(data.kind));
            if vx_it2.index < operands(data.kind).len() {
                assert(s2.exists_val(operands(data.kind)[vx_it2.index as int]));
                lemma_take_step(operands(data.kind), vx_it2.index as int);
            }
        }
//@ beforeloop 3
        let ghost s3 = *self;
//@ loop 3
    invariant_except_break
        vx_it3.index <= targets(data.kind).len(),
        self.bb_users_plus(s3, value, targets(data.kind).take(vx_it3.index as int)),
    invariant
        vx_it3.kind == &data.kind,
        s3.operands_ok(data.kind),
        self.same_skeleton(s3),
        self.same_users(s3),
    ensures
        self.same_skeleton(s3),
        self.bb_users_plus(s3, value, targets(data.kind)),
        self.same_users(s3),
    decreases targets(data.kind).len() - vx_it3.index,
//@ loopstart 3
        proof {
            assert(targets(data.kind).take(targets(data.kind).len() as int) =~= targets(data.kind));
            if vx_it3.index < targets(data.kind).len() {
                assert(s3.bbs@.contains_key(targets(data.kind)[vx_it3.index as int]));
                lemma_take_step(targets(data.kind), vx_it3.index as int);
            }
        }
//@ entry
        let ghost g0 = *self;
//@ exit
        proof {
            assert(g0.wf());
            assert forall|x: Value, u: Value| g0.exists_val(x) && x != value implies #[trigger] self.user(x, u) == ((g0.user(x, u) && !(u == value && operands(g0.values@[value].kind).contains(x))) || (u == value && operands(self.values@[value].kind).contains(x))) by {}
            assert forall|x: BasicBlock, u: Value| g0.bbs@.contains_key(x) implies #[trigger] self.bb_user(x, u) == ((g0.bb_user(x, u) && !(u == value && targets(g0.values@[value].kind).contains(x))) || (u == value && targets(self.values@[value].kind).contains(x))) by {}
            assert forall|x: Value, u: Value| g0.exists_val(x) && x != value implies #[trigger] self.user(x, u) == ((g0.user(x, u) && u != value) || (u == value && operands(self.values@[value].kind).contains(x))) by {}
            assert forall|x: BasicBlock, u: Value| g0.bbs@.contains_key(x) implies #[trigger] self.bb_user(x, u) == ((g0.bb_user(x, u) && u != value) || (u == value && targets(self.values@[value].kind).contains(x))) by {}
            assert forall|u: Value| #[trigger] self.user(value, u) == g0.user(value, u) by {}
        }
//@ end

//@ fn ir::dfg::DataFlowGraph::set_value_name
    requires
        old(self).values@.contains_key(value),
        name_ok(name),
    ensures
        final(self).values@.dom() =~= old(self).values@.dom(),
        final(self).values@[value].name == name,
        final(self).values@[value].kind == old(self).values@[value].kind,
        final(self).values@[value].ty == old(self).values@[value].ty,
        final(self).values@[value].used_by == old(self).values@[value].used_by,
        forall|x: Value| x != value && old(self).values@.contains_key(x) ==> #[trigger] final(self).values@[x] == old(self).values@[x],
        final(self).globals == old(self).globals,
        final(self).bbs == old(self).bbs,
//@ end

//@ fn ir::dfg::DataFlowGraph::value
    requires self.values@.contains_key(value),
    ensures *r == self.values@[value],
//@ end

//@ fn ir::dfg::DataFlowGraph::values
    ensures *r == self.values,
//@ end

//@ fn ir::dfg::DataFlowGraph::bb
    requires self.bbs@.contains_key(bb),
    ensures *r == self.bbs@[bb],
//@ end

//@ fn ir::dfg::DataFlowGraph::bbs
    ensures *r == self.bbs,
//@ end

//@ fn ir::dfg::DataFlowGraph::new_bb_data
    requires
        old(self).wf(),
        data.used_by@ == Set::<Value>::empty(),
        !old(self).bbs@.contains_key(BasicBlock(next_bb())),
    ensures
        r == BasicBlock(next_bb()),
        final(self).wf(),
        final(self).bbs@ == old(self).bbs@.insert(r, data),
        final(self).values == old(self).values,
        final(self).globals == old(self).globals,
//@ entry
        let ghost g0 = *self;
//@ exit
        proof {
            assert forall|x: Value, u: Value| #[trigger] self.user(x, u) == g0.user(x, u) by {}
            assert forall|x: BasicBlock, u: Value| x != vx_ret implies #[trigger] self.bb_user(x, u) == g0.bb_user(x, u) by {}
            assert forall|u: Value, i: int| self.values@.contains_key(u) && 0 <= i < targets(self.values@[u].kind).len() implies (#[trigger] targets(self.values@[u].kind)[i]) != vx_ret by {
                assert(g0.operands_ok(g0.values@[u].kind));
                assert(g0.bbs@.contains_key(targets(g0.values@[u].kind)[i]));
            }
            assert forall|u: Value| self.values@.contains_key(u) implies self.operands_ok(#[trigger] self.values@[u].kind) by {
                assert(g0.operands_ok(g0.values@[u].kind));
            }
        }
//@ end

// a block or a value that is still used is refused: these three return only
// when nobody used what they removed
//@ fn ir::dfg::DataFlowGraph::remove_bb panics=exit
    requires
        old(self).wf(),
        old(self).bbs@.contains_key(bb),
        forall|i: int| 0 <= i < old(self).bbs@[bb].params@.len() ==> old(self).values@.contains_key(#[trigger] old(self).bbs@[bb].params@[i]),
        forall|i: int| 0 <= i < old(self).bbs@[bb].params@.len() ==> operands(old(self).values@[#[trigger] old(self).bbs@[bb].params@[i]].kind).len() == 0
            && targets(old(self).values@[old(self).bbs@[bb].params@[i]].kind).len() == 0,
        old(self).bbs@[bb].params@.no_duplicates(),
    ensures
        forall|u: Value| !old(self).bb_user(bb, u),
        forall|i: int, u: Value| 0 <= i < old(self).bbs@[bb].params@.len() ==> !(#[trigger] old(self).user(old(self).bbs@[bb].params@[i], u)),
        final(self).wf(),
        r == old(self).bbs@[bb],
        final(self).bbs@ == old(self).bbs@.remove(bb),
        final(self).globals == old(self).globals,
        forall|x: Value| #[trigger] final(self).values@.contains_key(x) == (old(self).values@.contains_key(x) && !r.params@.contains(x)),
        forall|x: Value| #[trigger] final(self).values@.contains_key(x) ==> final(self).values@[x] == old(self).values@[x],
//@ entry
        let ghost g0 = *self;
//@ beforeloop 0
        let ghost s0 = *self;
        proof { assert(data == g0.bbs@[bb]); }
//@ loop 0
    invariant_except_break
        vx_it0.i <= data.params@.len(),
        forall|x: Value| #[trigger] self.values@.contains_key(x) == (g0.values@.contains_key(x) && !data.params@.take(vx_it0.i as int).contains(x)),
    invariant
        vx_it0.s@ == data.params@,
        data == g0.bbs@[bb],
        g0.wf(),
        data.params@.no_duplicates(),
        forall|i: int| 0 <= i < data.params@.len() ==> g0.values@.contains_key(#[trigger] data.params@[i]),
        forall|u: Value| !g0.bb_user(bb, u),
        forall|i: int, u: Value| 0 <= i < vx_it0.i && i < data.params@.len() ==> !(#[trigger] g0.user(data.params@[i], u)),
        self.globals == s0.globals,
        self.bbs == s0.bbs,
        self.func_tys == s0.func_tys,
        forall|x: Value| #[trigger] self.values@.contains_key(x) ==> self.values@[x] == g0.values@[x],
    ensures
        forall|x: Value| #[trigger] self.values@.contains_key(x) == (g0.values@.contains_key(x) && !data.params@.contains(x)),
        forall|i: int, u: Value| 0 <= i < data.params@.len() ==> !(#[trigger] g0.user(data.params@[i], u)),
    decreases data.params@.len() - vx_it0.i,
//@ loopstart 0
        proof {
            assert(data.params@.take(data.params@.len() as int) =~= data.params@);
            if vx_it0.i < data.params@.len() {
                let p = data.params@[vx_it0.i as int];
                lemma_take_step(data.params@, vx_it0.i as int);
                assert(g0.values@.contains_key(p));
                assert(!data.params@.take(vx_it0.i as int).contains(p)) by {
                    if data.params@.take(vx_it0.i as int).contains(p) {
                        let k = data.params@.take(vx_it0.i as int).index_of(p);
                        assert(data.params@[k] == p);
                    }
                }
                assert forall|u: Value| #[trigger] g0.user(p, u) == g0.values@[p].used_by@.contains(u) by {}
            }
        }
//@ exit
        proof {
            let ps = g0.bbs@[bb].params@;
            assert forall|x: Value, u: Value| self.exists_val(x) implies #[trigger] self.user(x, u) == g0.user(x, u) by {}
            assert forall|x: BasicBlock, u: Value| self.bbs@.contains_key(x) implies #[trigger] self.bb_user(x, u) == g0.bb_user(x, u) by {}
            assert forall|u: Value| ps.contains(u) implies operands(#[trigger] g0.values@[u].kind).len() == 0 && targets(g0.values@[u].kind).len() == 0 by {
                let k = ps.index_of(u);
                assert(ps[k] == u);
            }
            assert forall|u: Value, i: int| self.values@.contains_key(u) && 0 <= i < operands(self.values@[u].kind).len() implies self.exists_val(#[trigger] operands(self.values@[u].kind)[i]) by {
                assert(g0.operands_ok(g0.values@[u].kind));
                let x = operands(g0.values@[u].kind)[i];
                assert(g0.exists_val(x));
                assert(operands(g0.values@[u].kind).contains(x));
                assert(g0.user(x, u));
                if ps.contains(x) {
                    let k = ps.index_of(x);
                    assert(!g0.user(ps[k], u));
                }
            }
            assert forall|u: Value, i: int| self.values@.contains_key(u) && 0 <= i < targets(self.values@[u].kind).len() implies self.bbs@.contains_key(#[trigger] targets(self.values@[u].kind)[i]) by {
                assert(g0.operands_ok(g0.values@[u].kind));
                let x = targets(g0.values@[u].kind)[i];
                assert(targets(g0.values@[u].kind).contains(x));
                assert(!g0.bb_user(bb, u));
            }
            assert forall|u: Value| self.values@.contains_key(u) implies self.operands_ok(#[trigger] self.values@[u].kind) by {
                assert(g0.operands_ok(g0.values@[u].kind));
            }
        }
//@ end

//@ fn ir::dfg::DataFlowGraph::remove_value panics=exit
    requires
        old(self).wf(),
        old(self).values@.contains_key(value),
    ensures
        forall|u: Value| !old(self).user(value, u),
        final(self).wf(),
        final(self).values@.dom() =~= old(self).values@.dom().remove(value),
        r == old(self).values@[value],
        forall|x: Value| old(self).values@.contains_key(x) && x != value ==> same_data(#[trigger] final(self).values@[x], old(self).values@[x]),
        final(self).globals@.dom() =~= old(self).globals@.dom(),
        forall|x: Value| old(self).globals@.contains_key(x) ==> same_data(#[trigger] final(self).globals@[x], old(self).globals@[x]),
        forall|x: Value| old(self).globals@.contains_key(x) ==> !final(self).user(x, value),
        final(self).bbs@.dom() =~= old(self).bbs@.dom(),
        forall|x: BasicBlock| old(self).bbs@.contains_key(x) ==> (#[trigger] final(self).bbs@[x]).params == old(self).bbs@[x].params && final(self).bbs@[x].name == old(self).bbs@[x].name,
        final(self).foreign_users_kept(*old(self)),
//@ beforeloop 0
        let ghost s0 = *self;
        proof {
            assert forall|x: Value, u: Value| #![trigger s0.user(x, u)] #![trigger g0.user(x, u)] x != value && s0.exists_val(x) implies s0.user(x, u) == g0.user(x, u) by {}
            assert forall|x: BasicBlock, u: Value| #![trigger s0.bb_user(x, u)] #![trigger g0.bb_user(x, u)] s0.bb_user(x, u) == g0.bb_user(x, u) by {}
            assert forall|i: int| 0 <= i < operands(data.kind).len() implies s0.exists_val(#[trigger] operands(data.kind)[i]) by {
                assert(operands(data.kind).contains(operands(data.kind)[i]));
                assert(g0.exists_val(operands(data.kind)[i]));
                assert(g0.user(operands(data.kind)[i], value));
                
            }
        }
//@ loop 0
    invariant_except_break
        vx_it0.index <= operands(data.kind).len(),
        self.users_minus(s0, value, operands(data.kind).take(vx_it0.index as int)),
    invariant
        vx_it0.kind == &data.kind,
        s0.operands_ok(data.kind),
        self.same_skeleton(s0),
        self.same_bb_users(s0),
    ensures
        self.same_skeleton(s0),
        self.users_minus(s0, value, operands(data.kind)),
        self.same_bb_users(s0),
    decreases operands(data.kind).len() - vx_it0.index,
//@ loopstart 0
        proof {
            assert(operands(data.kind).take(operands(data.kind).len() as int) =~= operands(data.kind));
            if vx_it0.index < operands(data.kind).len() {
                assert(s0.exists_val(operands(data.kind)[vx_it0.index as int]));
                lemma_take_step(operands(data.kind), vx_it0.index as int);
            }
        }
//@ beforeloop 1
        let ghost s1 = *self;
//@ loop 1
    invariant_except_break
        vx_it1.index <= targets(data.kind).len(),
        self.bb_users_minus(s1, value, targets(data.kind).take(vx_it1.index as int)),
    invariant
        vx_it1.kind == &data.kind,
        s1.operands_ok(data.kind),
        self.same_skeleton(s1),
        self.same_users(s1),
    ensures
        self.same_skeleton(s1),
        self.bb_users_minus(s1, value, targets(data.kind)),
        self.same_users(s1),
    decreases targets(data.kind).len() - vx_it1.index,
//@ loopstart 1
        proof {
            assert(targets(data.kind).take(targets(data.kind).len() as int) =~= targets(data.kind));
            if vx_it1.index < targets(data.kind).len() {
                assert(s1.bbs@.contains_key(targets(data.kind)[vx_it1.index as int]));
                lemma_take_step(targets(data.kind), vx_it1.index as int);
            }
        }
//@ entry
        let ghost g0 = *self;
//@ exit
        proof {
            assert forall|u: Value, i: int| self.values@.contains_key(u) && 0 <= i < operands(self.values@[u].kind).len() implies (#[trigger] operands(self.values@[u].kind)[i]) != value by {
                assert(g0.values@.contains_key(u));
                assert(operands(g0.values@[u].kind).contains(operands(g0.values@[u].kind)[i]));
                assert(!g0.user(value, u));
            }
            assert forall|x: Value, u: Value| self.exists_val(x) implies #[trigger] self.user(x, u) == (g0.user(x, u) && u != value) by {}
            assert forall|x: BasicBlock, u: Value| g0.bbs@.contains_key(x) implies #[trigger] self.bb_user(x, u) == (g0.bb_user(x, u) && u != value) by {}
        }
//@ end
}
} // verus!
fn main() {}
