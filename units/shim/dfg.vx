// ---- shim/dfg: the data flow graph ----
//@ rule __e.upgrade().unwrap() => __e
//@ rule __e.borrow() => __e
//@ rule __e.borrow_mut() => __e
//@ rule __e.or_else(|| __f) => match __e { Some(vx_x) => Some(vx_x), None => __f }
//@ path GlobalValueMapCell => HashMap::<Value, ValueData>
//@ path FuncTypeMapCell => HashMap::<Function, Type>
//@ path GlobalValueMapCell::new => HashMap::new
//@ path FuncTypeMapCell::new => HashMap::new
//@ type Weak<RefCell<__T>> => __T
verus! {
//@ item ir::dfg::DataFlowGraph

/// Freshness of the next local value / basic block handle: the allocator hands out each
/// number once (C15); here it is an uninterpreted constant, used once per call.
pub uninterp spec fn next_local() -> u32;
pub uninterp spec fn next_bb() -> u32;
#[verifier::external_body]
pub fn next_local_value_id() -> (r: u32)
    ensures r == next_local(),
{ unimplemented!() }
#[verifier::external_body]
pub fn next_bb_id() -> (r: u32)
    ensures r == next_bb(),
{ unimplemented!() }

impl DataFlowGraph {
    pub open spec fn exists_val(self, v: Value) -> bool {
        self.globals@.contains_key(v) || self.values@.contains_key(v)
    }
    /// `u` is recorded as a user of `v`
    pub open spec fn user(self, v: Value, u: Value) -> bool {
        if self.globals@.contains_key(v) { self.globals@[v].used_by@.contains(u) } else { self.values@[v].used_by@.contains(u) }
    }
    pub open spec fn bb_user(self, b: BasicBlock, u: Value) -> bool {
        self.bbs@[b].used_by@.contains(u)
    }
    /// everything but the recorded users is the same
    pub open spec fn same_skeleton(self, o: DataFlowGraph) -> bool {
        &&& self.values@.dom() =~= o.values@.dom()
        &&& self.globals@.dom() =~= o.globals@.dom()
        &&& self.bbs@.dom() =~= o.bbs@.dom()
        &&& self.func_tys == o.func_tys
        &&& forall|x: Value| #[trigger] self.values@.contains_key(x) ==> same_data(self.values@[x], o.values@[x])
        &&& forall|x: Value| #[trigger] self.globals@.contains_key(x) ==> same_data(self.globals@[x], o.globals@[x])
        &&& forall|x: BasicBlock| #[trigger] self.bbs@.contains_key(x) ==> self.bbs@[x].name == o.bbs@[x].name && self.bbs@[x].params == o.bbs@[x].params
    }
    /// the recorded users of values/blocks are exactly those of `o`, plus/minus `w` as a user of `vs`
    pub open spec fn users_plus(self, o: DataFlowGraph, w: Value, vs: Seq<Value>) -> bool {
        forall|x: Value, u: Value| #![trigger self.user(x, u)] #![trigger o.user(x, u)] self.exists_val(x) ==> self.user(x, u) == (o.user(x, u) || (u == w && vs.contains(x)))
    }
    pub open spec fn users_minus(self, o: DataFlowGraph, w: Value, vs: Seq<Value>) -> bool {
        forall|x: Value, u: Value| #![trigger self.user(x, u)] #![trigger o.user(x, u)] self.exists_val(x) ==> self.user(x, u) == (o.user(x, u) && !(u == w && vs.contains(x)))
    }
    pub open spec fn bb_users_plus(self, o: DataFlowGraph, w: Value, bs: Seq<BasicBlock>) -> bool {
        forall|x: BasicBlock, u: Value| #![trigger self.bb_user(x, u)] #![trigger o.bb_user(x, u)] self.bbs@.contains_key(x) ==> self.bb_user(x, u) == (o.bb_user(x, u) || (u == w && bs.contains(x)))
    }
    pub open spec fn bb_users_minus(self, o: DataFlowGraph, w: Value, bs: Seq<BasicBlock>) -> bool {
        forall|x: BasicBlock, u: Value| #![trigger self.bb_user(x, u)] #![trigger o.bb_user(x, u)] self.bbs@.contains_key(x) ==> self.bb_user(x, u) == (o.bb_user(x, u) && !(u == w && bs.contains(x)))
    }
    pub open spec fn same_users(self, o: DataFlowGraph) -> bool {
        forall|x: Value, u: Value| #![trigger self.user(x, u)] #![trigger o.user(x, u)] self.exists_val(x) ==> self.user(x, u) == o.user(x, u)
    }
    pub open spec fn same_bb_users(self, o: DataFlowGraph) -> bool {
        forall|x: BasicBlock, u: Value| #![trigger self.bb_user(x, u)] #![trigger o.bb_user(x, u)] self.bbs@.contains_key(x) ==> self.bb_user(x, u) == o.bb_user(x, u)
    }
    /// Structural invariant: handles of the two maps are disjoint, operands exist, and operand
    /// lists fit the index type.
    pub open spec fn closed(self) -> bool {
        &&& forall|x: Value| !(#[trigger] self.values@.contains_key(x) && self.globals@.contains_key(x))
        &&& forall|u: Value| #[trigger] self.values@.contains_key(u) ==> self.operands_ok(self.values@[u].kind)
    }
    pub open spec fn operands_ok(self, k: ValueKind) -> bool {
        &&& small(k)
        &&& forall|i: int| 0 <= i < operands(k).len() ==> self.exists_val(#[trigger] operands(k)[i])
        &&& forall|i: int| 0 <= i < targets(k).len() ==> self.bbs@.contains_key(#[trigger] targets(k)[i])
    }
    /// Definition-use exactness: `u` is recorded as a user of `x` exactly when `x` occurs among
    /// the operands of the local value `u`; users of globals that are not values of this graph
    /// (they live in other functions or in the program) are not constrained here.
    pub open spec fn exact(self) -> bool {
        &&& forall|x: Value, u: Value| self.values@.contains_key(x) ==> #[trigger] self.user(x, u) == (self.values@.contains_key(u) && operands(self.values@[u].kind).contains(x))
        &&& forall|x: Value, u: Value| self.globals@.contains_key(x) && self.values@.contains_key(u) ==> #[trigger] self.user(x, u) == operands(self.values@[u].kind).contains(x)
        &&& forall|x: BasicBlock, u: Value| #![trigger self.bb_user(x, u)] self.bbs@.contains_key(x) ==> self.bb_user(x, u) == (self.values@.contains_key(u) && targets(self.values@[u].kind).contains(x))
    }
    pub open spec fn wf(self) -> bool {
        self.closed() && self.exact()
    }
    /// users recorded in globals by anything but this graph's values in `keep` are untouched
    pub open spec fn foreign_users_kept(self, o: DataFlowGraph) -> bool {
        forall|x: Value, u: Value| #![trigger self.user(x, u)] #![trigger o.user(x, u)] self.globals@.contains_key(x) && !self.values@.contains_key(u) && !o.values@.contains_key(u) ==> self.user(x, u) == o.user(x, u)
    }
}
pub open spec fn same_data(a: ValueData, b: ValueData) -> bool {
    a.ty == b.ty && a.name == b.name && a.kind == b.kind
}
} // verus!
