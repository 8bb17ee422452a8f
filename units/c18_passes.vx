//@ include shim/base.vx
//@ include shim/kinds.vx
//@ include shim/program.vx
//@ rule self.passes.iter_mut() => (&mut self.passes)
//@ type Box<dyn ModulePass> => VxModulePass
//@ type Box<dyn FunctionPass> => VxFunctionPass
//@ rule __p.run_on(__a) => __p.vx_run_module(__a, &mut *vx_log)
//@ rule __p.run_on(__a, __b) => __p.vx_run_func(__a, __b, &mut *vx_log)
verus! {
/// What a pass was run on, and what it left behind.
#[allow(inconsistent_fields)]
pub enum Event {
    Module { id: int, pre: Program, post: Program },
    Func { id: int, func: Function, pre: FunctionData, post: FunctionData },
}
#[verifier::external_body]
pub struct VxLog { x: usize }
impl VxLog { pub uninterp spec fn view(&self) -> Seq<Event>; }

/// A registered pass: arbitrary code, of which only the call is observed.
#[verifier::external_body]
pub struct VxModulePass { x: usize }
#[verifier::external_body]
pub struct VxFunctionPass { x: usize }
impl VxModulePass {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn vx_run_module(&mut self, program: &mut Program, vx_log: &mut VxLog)
        ensures final(self).id() == old(self).id(), final(vx_log)@ == old(vx_log)@.push(Event::Module { id: old(self).id(), pre: *old(program), post: *final(program) }),
    { unimplemented!() }
}
impl VxFunctionPass {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn vx_run_func(&mut self, func: Function, data: &mut FunctionData, vx_log: &mut VxLog)
        ensures final(self).id() == old(self).id(), final(vx_log)@ == old(vx_log)@.push(Event::Func { id: old(self).id(), func: func, pre: *old(data), post: *final(data) }),
    { unimplemented!() }
}
//@ item opt::pass::Pass
//@ item opt::passman::PassManager

// ---- mutable iteration: the final value of each item is what its borrower leaves in it ----
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct IterMut<'a, T> { x: &'a mut [T] }
impl<'a, T> IterMut<'a, T> {
    pub uninterp spec fn start(&self) -> Seq<T>;
    pub uninterp spec fn end(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a mut T>)
        ensures
            final(self).start() == old(self).start(), final(self).end() == old(self).end(),
            old(self).pos() < old(self).start().len() ==> final(self).pos() == old(self).pos() + 1
                && match r { Some(x) => *x == old(self).start()[old(self).pos() as int] && *final(x) == old(self).end()[old(self).pos() as int], None => false },
            old(self).pos() >= old(self).start().len() ==> final(self).pos() == old(self).pos() && r is None,
    { unimplemented!() }
}
impl<'a, T> VxIntoIter for &'a mut Vec<T> {
    type It = IterMut<'a, T>;
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: IterMut<'a, T>)
        ensures r.start() == old(self)@, r.end() == final(self)@, r.pos() == 0, r.start().len() == r.end().len(),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct MapIterMut<'a, K, V> { x: &'a mut HashMap<K, V> }
impl<'a, K, V> MapIterMut<'a, K, V> {
    pub uninterp spec fn start(&self) -> Map<K, V>;
    pub uninterp spec fn end(&self) -> Map<K, V>;
    pub uninterp spec fn pos(&self) -> nat;
    pub open spec fn order(&self) -> Seq<K> { map_order(self.start()) }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a K, &'a mut V)>)
        ensures
            final(self).start() == old(self).start(), final(self).end() == old(self).end(),
            old(self).pos() < old(self).order().len() ==> final(self).pos() == old(self).pos() + 1
                && match r { Some((k, v)) => *k == old(self).order()[old(self).pos() as int] && *v == old(self).start()[*k] && *final(v) == old(self).end()[*k], None => false },
            old(self).pos() >= old(self).order().len() ==> final(self).pos() == old(self).pos() && r is None,
    { unimplemented!() }
}
impl<'a, K, V> VxIntoIter for &'a mut HashMap<K, V> {
    type It = MapIterMut<'a, K, V>;
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: MapIterMut<'a, K, V>)
        ensures
            r.start() == old(self)@, r.end() == final(self)@, r.pos() == 0, final(self)@.dom() == old(self)@.dom(),
            map_order(old(self)@).no_duplicates(),
            forall|k: K| map_order(old(self)@).contains(k) == #[trigger] old(self)@.contains_key(k),
    { unimplemented!() }
}
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn iter_mut<'a>(&'a mut self) -> (r: MapIterMut<'a, K, V>)
        ensures
            r.start() == old(self)@, r.end() == final(self)@, r.pos() == 0, final(self)@.dom() == old(self)@.dom(),
            map_order(old(self)@).no_duplicates(),
            forall|k: K| map_order(old(self)@).contains(k) == #[trigger] old(self)@.contains_key(k),
    { unimplemented!() }
}
impl<'a, K, V> VxIntoIter for MapIterMut<'a, K, V> {
    type It = MapIterMut<'a, K, V>;
    fn vx_into_iter(self) -> (r: MapIterMut<'a, K, V>) ensures r == self, { self }
}
impl<'a, T> VxIntoIter for IterMut<'a, T> {
    type It = IterMut<'a, T>;
    fn vx_into_iter(self) -> (r: IterMut<'a, T>) ensures r == self, { self }
}

// ---- what running the passes means ----
pub open spec fn same_rest(p: Program, o: Program) -> bool {
    p.values == o.values && p.inst_layout == o.inst_layout && p.func_tys == o.func_tys && p.func_layout == o.func_layout
}
pub open spec fn pass_id(p: Pass) -> (bool, int) {
    match p { Pass::Module(m) => (true, m.id()), Pass::Function(f) => (false, f.id()) }
}
pub open spec fn ids(s: Seq<Pass>) -> Seq<(bool, int)> { s.map_values(|p: Pass| pass_id(p)) }
/// one pass turned `p0` into `p1`, observed as `evs`
pub open spec fn pass_run(p: (bool, int), evs: Seq<Event>, p0: Program, p1: Program) -> bool {
    if p.0 {
        evs == seq![Event::Module { id: p.1, pre: p0, post: p1 }]
    } else {
        let ks = map_order(p0.funcs@);
        &&& ks.no_duplicates()
        &&& forall|f: Function| ks.contains(f) == #[trigger] p0.funcs@.contains_key(f)
        &&& evs.len() == ks.len()
        &&& forall|j: int| 0 <= j < ks.len() ==> #[trigger] evs[j] == (Event::Func { id: p.1, func: ks[j], pre: p0.funcs@[ks[j]], post: p1.funcs@[ks[j]] })
        &&& p1.funcs@.dom() == p0.funcs@.dom()
        &&& same_rest(p1, p0)
    }
}
pub open spec fn at(k: int, pm: Program) -> bool { true }
/// the passes ran in this order, one after the other
pub open spec fn runs(ps: Seq<(bool, int)>, evs: Seq<Event>, p0: Program, p1: Program) -> bool
    decreases ps.len(),
{
    if ps.len() == 0 { evs =~= Seq::<Event>::empty() && p0 == p1 } else {
        exists|k: int, pm: Program| #[trigger] at(k, pm) && 0 <= k <= evs.len() && runs(ps.drop_last(), evs.take(k), p0, pm) && pass_run(ps.last(), evs.skip(k), pm, p1)
    }
}
impl Program {
//@ fn ir::entities::Program::funcs
    ensures *r == self.funcs,
//@ end
//@ fn ir::entities::Program::func_layout
    ensures r@ == self.func_layout@,
//@ end
//@ fn ir::entities::Program::funcs_mut
    ensures *r == old(self).funcs, final(self).funcs == *final(r), same_rest(*final(self), *old(self)),
//@ end
}
impl DataFlowGraph {
//@ fn ir::dfg::DataFlowGraph::bbs
    ensures *r == self.bbs,
//@ end
}
impl PassManager {
//@ fn opt::passman::PassManager@Default::default as=vx_default
    ensures r.passes@.len() == 0,
//@ end
//@ rule Self::default() => Self::vx_default()
//@ fn opt::passman::PassManager::new
    ensures r.passes@.len() == 0,
//@ end
//@ fn opt::passman::PassManager::register
    ensures final(self).passes@ == old(self).passes@.push(pass),
//@ end
//@ fn opt::passman::PassManager@From::from as=vx_from
    ensures r.passes@ == passes@,
//@ end
//@ fn opt::passman::PassManager::run_passes
    ensures
        ids(final(self).passes@) =~= ids(old(self).passes@),
        exists|evs: Seq<Event>| final(vx_log)@ == old(vx_log)@ + evs && #[trigger] runs(ids(old(self).passes@), evs, *old(program), *final(program)),
//@ sig
pub fn run_passes(&mut self, program: &mut Program, vx_log: &mut VxLog)
//@ entry
        let ghost g0 = *program;
        let ghost l0 = vx_log@;
        let ghost s0 = self.passes@;
//@ afterloop 0
        proof { assert(self.passes@.len() == s0.len()); assert forall|j: int| 0 <= j < s0.len() implies pass_id(#[trigger] self.passes@[j]) == pass_id(s0[j]) by { } }
//@ beforeloop 0
        let ghost en0 = vx_it0.end();
        proof { assert(l0 =~= l0 + Seq::<Event>::empty()); assert(runs(ids(s0).take(0), Seq::<Event>::empty(), g0, *program)); }
//@ loop 0
    invariant_except_break
        vx_it0.pos() <= s0.len(),
        exists|evs: Seq<Event>| vx_log@ == l0 + evs && #[trigger] runs(ids(s0).take(vx_it0.pos() as int), evs, g0, *program),
    invariant
        vx_it0.start() == s0, vx_it0.end() == en0, vx_it0.end().len() == s0.len(),
        forall|j: int| 0 <= j < vx_it0.pos() ==> pass_id(#[trigger] vx_it0.end()[j]) == pass_id(s0[j]),
    ensures
        vx_it0.pos() == s0.len(),
        exists|evs: Seq<Event>| vx_log@ == l0 + evs && #[trigger] runs(ids(s0), evs, g0, *program),
    decreases s0.len() - vx_it0.pos(),
//@ loopstart 0
        let ghost n = vx_it0.pos() as int;
        let ghost pm = *program;
        let ghost l1 = vx_log@;
        let ghost e1 = choose|evs: Seq<Event>| vx_log@ == l0 + evs && #[trigger] runs(ids(s0).take(n), evs, g0, *program);
        proof { assert(ids(s0).take(s0.len() as int) =~= ids(s0)); }
//@ bodyend 0
        proof {
            let e2 = vx_log@.skip(l1.len() as int);
            let ps = ids(s0).take(n + 1);
            assert(ps.drop_last() =~= ids(s0).take(n));
            assert(ps.last() == pass_id(s0[n]));
            let evs = e1 + e2;
            assert(evs.take(e1.len() as int) =~= e1);
            assert(evs.skip(e1.len() as int) =~= e2);
            assert(vx_log@.take(l1.len() as int) =~= l1);
            assert(vx_log@ =~= l1 + e2);
            assert(l1 =~= l0 + e1);
            assert(vx_log@ =~= l0 + evs);
            if s0[n] is Module { assert(e2 =~= seq![Event::Module { id: pass_id(s0[n]).1, pre: pm, post: *program }]); }
            assert(pass_run(ps.last(), e2, pm, *program));
            assert(runs(ps.drop_last(), evs.take(e1.len() as int), g0, pm));
            assert(pass_run(ps.last(), evs.skip(e1.len() as int), pm, *program));
            assert(ps.len() == n + 1);
            assert(0 <= e1.len() <= evs.len());
            assert(at(e1.len() as int, pm));
            assert(runs(ps, evs, g0, *program));
        }
//@ loopstart 1
        let ghost l2 = vx_log@;
        let ghost m = vx_it1.pos() as int;
//@ bodyend 1
        proof {
            assert(vx_log@.skip(l1.len() as int) =~= l2.skip(l1.len() as int).push(vx_log@.last()));
        }
//@ beforeloop 1
        let ghost fid = p.id();
        let ghost en1 = vx_it1.end();
//@ loop 1
    invariant_except_break
        vx_it1.pos() <= vx_it1.order().len(),
    invariant
        p.id() == fid,
        vx_it1.start() == pm.funcs@, vx_it1.end() == en1,
        l1.len() <= vx_log@.len(), vx_log@.take(l1.len() as int) =~= l1,
        vx_log@.len() == l1.len() + vx_it1.pos(),
        forall|j: int| 0 <= j < vx_it1.pos() ==> #[trigger] vx_log@.skip(l1.len() as int)[j] == (Event::Func { id: fid, func: vx_it1.order()[j], pre: pm.funcs@[vx_it1.order()[j]], post: vx_it1.end()[vx_it1.order()[j]] }),
    ensures
        vx_it1.pos() == vx_it1.order().len(),
    decreases vx_it1.order().len() - vx_it1.pos(),
//@ end
}
} // verus!
fn main() {}
