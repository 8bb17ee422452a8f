// ---- shim/program: the program container; functions' data flow graphs point back to the program's maps ----
//@ path GlobalValueMapCell => VxWeak::<HashMap<Value, ValueData>>
//@ path FuncTypeMapCell => VxWeak::<HashMap<Function, Type>>
//@ type Weak<RefCell<__T>> => VxWeak<__T>
//@ rule Rc::downgrade(&__e) => VxWeak::of(&__e)
//@ rule __e.borrow_mut() => (&mut __e)
//@ rule __e.borrow() => (&__e)
//@ rule drop(__e) => ()
//@ rule mem::drop(__e) => ()
//@ rule __l.iter().position(|__p| *__p == __x) => vx_position(&__l, __x)
//@ rule Default::default() => VxDefault::vx_default()
//@ include mapiter.vx
verus! {
/// A weak back pointer to one of the program's maps.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxWeak<T> { x: std::marker::PhantomData<T> }
impl<T> VxWeak<T> {
    #[verifier::external_body]
    pub fn of(t: &T) -> Self { unimplemented!() }
}
/// The order of blocks and instructions: C03
#[verifier::external_body]
pub struct Layout { x: usize }

pub trait VxDefault: Sized {
    spec fn is_default(self) -> bool;
    fn vx_default() -> (r: Self)
        ensures r.is_default();
}
impl<K, V> VxDefault for HashMap<K, V> {
    open spec fn is_default(self) -> bool { self@ == Map::<K, V>::empty() }
    fn vx_default() -> (r: Self) { HashMap::new() }
}
impl<T> VxDefault for Vec<T> {
    open spec fn is_default(self) -> bool { self@ == Seq::<T>::empty() }
    fn vx_default() -> (r: Self) { Vec::new() }
}

/// `l.iter().position(|x| *x == k)`
pub trait VxSame: Copy { }
#[verifier::external_body]
pub fn vx_position<T: PartialEq + Copy>(l: &Vec<T>, k: T) -> (r: Option<usize>)
    ensures match r {
        Some(i) => 0 <= i < l@.len() && l@[i as int] == k && (forall|j: int| 0 <= j < i ==> l@[j] != k),
        None => !l@.contains(k),
    },
{ unimplemented!() }

//@ item ir::dfg::DataFlowGraph
//@ item ir::entities::FunctionData
//@ item ir::entities::Program

/// Handles are given out once (C15), so a new one names nothing that is live in the program.
#[verifier::external_body]
pub fn vx_next_func_id(p: &Program) -> (r: u32)
    ensures !p.funcs@.contains_key(Function(r)), !p.func_tys@.contains_key(Function(r)), !p.func_layout@.contains(Function(r)),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_next_global_value_id(p: &Program) -> (r: u32)
    ensures !p.values@.contains_key(Value(r)), !p.inst_layout@.contains(Value(r)),
        forall|x: Value| #[trigger] p.values@.contains_key(x) ==> !p.values@[x].used_by@.contains(Value(r)),
        forall|f: Function| #[trigger] p.funcs@.contains_key(f) ==> !p.funcs@[f].dfg.values@.contains_key(Value(r)),
{ unimplemented!() }
//@ rule next_func_id() => vx_next_func_id(&*self)
//@ rule next_global_value_id() => vx_next_global_value_id(&*self)

impl DataFlowGraph {
//@ fn ir::dfg::DataFlowGraph::values
    ensures *r == self.values,
//@ end
}
impl FunctionData {
//@ fn ir::entities::FunctionData::ty
    ensures *r == self.ty,
//@ end
//@ fn ir::entities::FunctionData::name
    ensures r@ == self.name@,
//@ end
//@ fn ir::entities::FunctionData::params
    ensures r@ == self.params@,
//@ end
//@ fn ir::entities::FunctionData::dfg
    ensures *r == self.dfg,
//@ end
//@ fn ir::entities::FunctionData::dfg_mut
    ensures *r == old(self).dfg, *final(self) == (FunctionData { dfg: *final(r), ..*old(self) }),
//@ end
//@ fn ir::entities::FunctionData::layout
    ensures *r == self.layout,
//@ end
//@ fn ir::entities::FunctionData::layout_mut
    ensures *r == old(self).layout, *final(self) == (FunctionData { layout: *final(r), ..*old(self) }),
//@ end
//@ fn ir::entities::FunctionData::set_name
    ensures *final(self) == (FunctionData { name: name, ..*old(self) }),
//@ end
}
} // verus!
