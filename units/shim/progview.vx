// ---- shim/progview: a program as its readers see it (the accessors are under contract elsewhere) ----
//@ path ValueRef => &ValueData
verus! {
// ---- types (C05) ----
//@ item ir::types::TypeKind
pub uninterp spec fn tk(t: Type) -> TypeKind;
impl Type {
    #[verifier::external_body]
    pub fn kind(&self) -> (r: &TypeKind) ensures *r == tk(*self), { unimplemented!() }
    #[verifier::external_body]
    pub fn is_unit(&self) -> (r: bool) ensures r == (tk(*self) is Unit), { unimplemented!() }
}

// ---- the program being printed; its objects carry a ghost identity ----
pub open spec fn opt_text(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
#[derive(Clone, Copy)]
pub struct Addr { pub a: usize }
#[verifier::external_body]
pub struct ValueData { x: usize }
#[verifier::external_body]
pub struct BasicBlockData { x: usize }
#[verifier::external_body]
pub struct FunctionData { x: usize }
#[verifier::external_body]
pub struct DataFlowGraph { x: usize }
#[verifier::external_body]
pub struct Layout { x: usize }
#[verifier::external_body]
pub struct BasicBlockNode { x: usize }
#[verifier::external_body]
pub struct BasicBlockList { x: usize }
#[verifier::external_body]
pub struct InstList { x: usize }
#[verifier::external_body]
pub struct Program { x: usize }

pub uninterp spec fn global(v: Value) -> bool;
impl Value {
    /// C15
    #[verifier::external_body]
    pub fn is_global(&self) -> (r: bool) ensures r == global(*self), { unimplemented!() }
}
pub open spec fn constant(k: ValueKind) -> bool { k is Integer || k is ZeroInit || k is Undef || k is Aggregate }
impl ValueKind {
//@ fn ir::entities::ValueKind::is_const
    ensures r == constant(*self),
//@ end
//@ fn ir::entities::ValueKind::is_global_alloc
    ensures r == (*self is GlobalAlloc),
//@ end
}
impl ValueData {
    pub uninterp spec fn addr(&self) -> Addr;
    pub uninterp spec fn what(&self) -> ValueKind;
    pub uninterp spec fn typed(&self) -> Type;
    /// nesting depth of an aggregate
    pub uninterp spec fn depth(&self) -> nat;
    pub uninterp spec fn named(&self) -> Option<Seq<char>>;
    /// the values that use this one
    pub uninterp spec fn users(&self) -> Set<Value>;
    #[verifier::external_body]
    pub fn name(&self) -> (r: &Option<String>) ensures opt_text(*r) == self.named(), { unimplemented!() }
    #[verifier::external_body]
    pub fn used_by(&self) -> (r: &HashSet<Value>) ensures r@ == self.users(), { unimplemented!() }
    #[verifier::external_body]
    pub fn kind(&self) -> (r: &ValueKind) ensures *r == self.what(), { unimplemented!() }
    #[verifier::external_body]
    pub fn ty(&self) -> (r: &Type) ensures *r == self.typed(), { unimplemented!() }
}
impl BasicBlockData {
    pub uninterp spec fn addr(&self) -> Addr;
    pub uninterp spec fn pars(&self) -> Seq<Value>;
    pub uninterp spec fn users(&self) -> Set<Value>;
    pub uninterp spec fn named(&self) -> Option<Seq<char>>;
    #[verifier::external_body]
    pub fn name(&self) -> (r: &Option<String>) ensures opt_text(*r) == self.named(), { unimplemented!() }
    #[verifier::external_body]
    pub fn params(&self) -> (r: &Vec<Value>) ensures r@ == self.pars(), { unimplemented!() }
    #[verifier::external_body]
    pub fn used_by(&self) -> (r: &HashSet<Value>) ensures r@ == self.users(), { unimplemented!() }
}
impl FunctionData {
    pub uninterp spec fn addr(&self) -> Addr;
    pub uninterp spec fn typed(&self) -> Type;
    pub uninterp spec fn pars(&self) -> Seq<Value>;
    pub uninterp spec fn vals(&self) -> Map<Value, ValueData>;
    pub uninterp spec fn bbs(&self) -> Map<BasicBlock, BasicBlockData>;
    /// blocks in order, and the instructions of each
    pub uninterp spec fn order(&self) -> Seq<BasicBlock>;
    pub uninterp spec fn body(&self) -> Map<BasicBlock, Seq<Value>>;
    /// the block an instruction is in (C03)
    pub uninterp spec fn parents(&self) -> Map<Value, BasicBlock>;
    #[verifier::external_body]
    pub fn ty(&self) -> (r: &Type) ensures *r == self.typed(), { unimplemented!() }
    #[verifier::external_body]
    pub fn params(&self) -> (r: &Vec<Value>) ensures r@ == self.pars(), { unimplemented!() }
    pub uninterp spec fn named(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn name(&self) -> (r: &str) ensures r@ == self.named(), { unimplemented!() }
    #[verifier::external_body]
    pub fn dfg(&self) -> (r: &DataFlowGraph) ensures r.vals() == self.vals(), r.blocks() == self.bbs(), { unimplemented!() }
    #[verifier::external_body]
    pub fn layout(&self) -> (r: &Layout) ensures r.order() == self.order(), r.body() == self.body(), r.parents() == self.parents(), { unimplemented!() }
}
impl DataFlowGraph {
    pub uninterp spec fn vals(&self) -> Map<Value, ValueData>;
    pub uninterp spec fn blocks(&self) -> Map<BasicBlock, BasicBlockData>;
    /// C01
    #[verifier::external_body]
    pub fn value(&self, v: Value) -> (r: &ValueData) requires self.vals().contains_key(v), ensures *r == self.vals()[v], { unimplemented!() }
    #[verifier::external_body]
    pub fn bb(&self, b: BasicBlock) -> (r: &BasicBlockData) requires self.blocks().contains_key(b), ensures *r == self.blocks()[b], { unimplemented!() }
    #[verifier::external_body]
    pub fn bbs(&self) -> (r: &HashMap<BasicBlock, BasicBlockData>) ensures r@ == self.blocks(), { unimplemented!() }
}
impl Layout {
    pub uninterp spec fn order(&self) -> Seq<BasicBlock>;
    pub uninterp spec fn body(&self) -> Map<BasicBlock, Seq<Value>>;
    pub uninterp spec fn parents(&self) -> Map<Value, BasicBlock>;
    #[verifier::external_body]
    pub fn parent_bb(&self, inst: Value) -> (r: Option<BasicBlock>)
        ensures r == if self.parents().contains_key(inst) { Some(self.parents()[inst]) } else { None },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn bbs(&self) -> (r: &BasicBlockList) ensures r.order() == self.order(), r.body() == self.body(), { unimplemented!() }
}
impl BasicBlockList {
    pub uninterp spec fn order(&self) -> Seq<BasicBlock>;
    pub uninterp spec fn body(&self) -> Map<BasicBlock, Seq<Value>>;
}
impl BasicBlockNode {
    pub uninterp spec fn list(&self) -> Seq<Value>;
    #[verifier::external_body]
    pub fn insts(&self) -> (r: &InstList) ensures r.list() == self.list(), { unimplemented!() }
}
impl InstList {
    pub uninterp spec fn list(&self) -> Seq<Value>;
    #[verifier::external_body]
    pub fn keys(&self) -> (r: SliceIter<'_, Value>) ensures r.s@ == self.list(), r.i == 0, { unimplemented!() }
}
impl<'a, T> VxIntoIter for SliceIter<'a, T> {
    type It = Self;
    fn vx_into_iter(self) -> (r: Self) ensures r == self, { self }
}
impl Program {
    pub uninterp spec fn gvals(&self) -> Map<Value, ValueData>;
    pub uninterp spec fn fns(&self) -> Map<Function, FunctionData>;
    pub uninterp spec fn insts(&self) -> Seq<Value>;
    pub uninterp spec fn order(&self) -> Seq<Function>;
    #[verifier::external_body]
    pub fn borrow_value(&self, v: Value) -> (r: &ValueData) requires self.gvals().contains_key(v), ensures *r == self.gvals()[v], { unimplemented!() }
    #[verifier::external_body]
    pub fn func(&self, f: Function) -> (r: &FunctionData) requires self.fns().contains_key(f), ensures *r == self.fns()[f], { unimplemented!() }
    #[verifier::external_body]
    pub fn inst_layout(&self) -> (r: &[Value]) ensures r@ == self.insts(), { unimplemented!() }
    #[verifier::external_body]
    pub fn func_layout(&self) -> (r: &[Function]) ensures r@ == self.order(), { unimplemented!() }
}

/// the order in which a set is iterated
pub uninterp spec fn set_order<T>(s: Set<T>) -> Seq<T>;
#[verifier::external_body]
pub proof fn axiom_set_order<T>(s: Set<T>)
    ensures set_order(s).no_duplicates(), forall|x: T| s.contains(x) <==> #[trigger] set_order(s).contains(x),
{}
} // verus!
