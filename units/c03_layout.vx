//@ include shim/base.vx
//@ include shim/mapiter.vx
//@ type Weak<RefCell<HashMap<Value, BasicBlock>>> => VxWeakIb
//@ type Rc<RefCell<HashMap<Value, BasicBlock>>> => VxRcIb
//@ type InstBBCell => VxWeakIb
//@ rule Rc::downgrade(&__e) => vx_downgrade(&__e)
//@ rule Rc::new(RefCell::new(__e)) => vx_rc_new(__e, &mut *vx_ib)
//@ rule __w.upgrade() => vx_upgrade(&__w, &mut *vx_ib)
//@ rule __e.as_ref().borrow_mut() => __e
//@ rule __e.borrow_mut() => (&mut *__e)
//@ rule self.inst_bb.as_ref().borrow() => vx_read(&self.inst_bb, vx_ib)
//@ rule __a.get(__i) == Some(&__b) => vx_opt_is(__a.get(__i), __b)
//@ rule __v.into() => vx_into(__v)
//@ rule Self::default() => Self::vx_default(&mut *vx_ib)
//@ rule forget_parents(__a, __b, __c) => forget_parents(__a, __b, __c, &mut *vx_ib)
//@ type ValueId => u32
//@ type BasicBlockId => u32
//@ type FunctionId => u32
verus! {
//@ item ir::entities::Value #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ item ir::entities::BasicBlock #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ item ir::layout::Layout
//@ item ir::layout::BasicBlockMap
//@ item ir::layout::BasicBlockNode
//@ item ir::layout::InstMap
//@ item ir::layout::InstNode

// ---- the record shared by the lists of one layout: parent of every instruction ----
pub struct VxIb { pub id: Ghost<int>, pub live: Ghost<bool>, pub map: HashMap<Value, BasicBlock> }
#[verifier::external_body]
pub struct VxWeakIb { x: usize }
#[verifier::external_body]
pub struct VxRcIb { x: usize }
impl VxWeakIb {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r.id() == self.id() { unimplemented!() }
}
impl VxRcIb { pub uninterp spec fn id(&self) -> int; }
#[verifier::external_body]
pub fn vx_downgrade(r: &VxRcIb) -> (w: VxWeakIb) ensures w.id() == r.id() { unimplemented!() }
#[verifier::external_body]
pub fn vx_rc_new(m: HashMap<Value, BasicBlock>, ib: &mut VxIb) -> (r: VxRcIb)
    ensures final(ib).id@ == r.id(), final(ib).live@, final(ib).map == m,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_upgrade<'a>(w: &VxWeakIb, ib: &'a mut VxIb) -> (r: Option<&'a mut HashMap<Value, BasicBlock>>)
    requires w.id() == old(ib).id@,
    ensures
        final(ib).id == old(ib).id, final(ib).live == old(ib).live,
        match r { Some(m) => old(ib).live@ && *m == old(ib).map && final(ib).map == *final(m), None => !old(ib).live@ && final(ib).map == old(ib).map },
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_read<'a>(w: &VxRcIb, ib: &'a VxIb) -> (r: &'a HashMap<Value, BasicBlock>)
    requires w.id() == ib.id@,
    ensures *r == ib.map,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_opt_is(o: Option<&BasicBlock>, b: BasicBlock) -> (r: bool)
    ensures r == (o == Some(&b)),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_into<T>(v: T) -> InstNode { unimplemented!() }

// ---- std's map entry and whole-map operations ----
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub enum Entry<'a, K, V> { Vacant(VacantEntry<'a, K, V>), Occupied(OccupiedEntry<'a, K, V>) }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VacantEntry<'a, K, V> { m: &'a mut HashMap<K, V> }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct OccupiedEntry<'a, K, V> { m: &'a mut HashMap<K, V> }
impl<'a, K, V> VacantEntry<'a, K, V> {
    pub uninterp spec fn pre(&self) -> Map<K, V>;
    pub uninterp spec fn post(&self) -> Map<K, V>;
    pub uninterp spec fn key(&self) -> K;
    #[verifier::external_body]
    pub fn insert(self, v: V)
        ensures self.post() == self.pre().insert(self.key(), v),
    { unimplemented!() }
}
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn entry(&mut self, k: K) -> (r: Entry<'_, K, V>)
        ensures match r {
            Entry::Vacant(e) => !old(self)@.contains_key(k) && e.pre() == old(self)@ && e.post() == final(self)@ && e.key() == k,
            Entry::Occupied(_) => old(self)@.contains_key(k) && final(self)@ == old(self)@,
        },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.dom().len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self)
        ensures final(self)@ == Map::<K, V>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_entry(&mut self, k: &K) -> (r: Option<(K, V)>)
        ensures
            final(self)@ == old(self)@.remove(*k),
            match r {
                Some(x) => old(self)@.contains_key(*k) && x.0 == *k && x.1 == old(self)@[*k],
                None => !old(self)@.contains_key(*k),
            },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn keys(&self) -> (r: VxKeys<'_, K>)
        ensures forall|k: K| r@.contains(k) == #[trigger] self@.contains_key(k),
    { unimplemented!() }
}
// ---- a sequence of keys to go through ----
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct VxKeys<'a, K> { k: &'a K }
impl<'a, K> VxKeys<'a, K> {
    pub uninterp spec fn view(&self) -> Seq<K>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a K>)
        ensures
            final(self)@ == old(self)@,
            old(self).pos() < old(self)@.len() ==> final(self).pos() == old(self).pos() + 1 && r == Some(&old(self)@[old(self).pos() as int]),
            old(self).pos() >= old(self)@.len() ==> final(self).pos() == old(self).pos() && r is None,
    { unimplemented!() }
}
pub trait VxValues<'a>: Sized {
    spec fn vals(self) -> Seq<Value>;
    fn vx_into_iter(self) -> (r: VxKeys<'a, Value>)
        ensures r@ == self.vals(), r.pos() == 0;
}
impl<'a> VxValues<'a> for VxKeys<'a, Value> {
    open spec fn vals(self) -> Seq<Value> { self@ }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxKeys<'a, Value>) { unimplemented!() }
}
impl<'a> VxValues<'a> for [&'a Value; 1] {
    open spec fn vals(self) -> Seq<Value> { seq![*self@[0]] }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxKeys<'a, Value>) { unimplemented!() }
}

// ---- key_node_list::KeyNodeList: a sequence of the keys its map holds (trusted dependency) ----
pub struct BasicBlockList { pub seq: Ghost<Seq<BasicBlock>>, pub nodes: BasicBlockMap }
impl BasicBlockList {
    /// the list's keys are its map's keys, each once
    pub open spec fn wf(&self) -> bool {
        &&& self.seq@.no_duplicates()
        &&& forall|k: BasicBlock| self.seq@.contains(k) == #[trigger] self.nodes.map@.contains_key(k)
    }
    pub fn with_map(map: BasicBlockMap) -> (r: Self)
        requires map.map@ == Map::<BasicBlock, BasicBlockNode>::empty(),
        ensures r.wf(), r.seq@ == Seq::<BasicBlock>::empty(), r.nodes == map,
    { BasicBlockList { seq: Ghost(Seq::empty()), nodes: map } }
    pub fn node_mut(&mut self, k: &BasicBlock) -> (r: Option<&mut BasicBlockNode>)
        ensures
            final(self).seq == old(self).seq,
            match r {
                Some(v) => old(self).nodes.map@.contains_key(*k) && *v == old(self).nodes.map@[*k] && final(self).nodes.map@ == old(self).nodes.map@.insert(*k, *final(v)) && final(self).nodes.inst_bb == old(self).nodes.inst_bb,
                None => !old(self).nodes.map@.contains_key(*k) && final(self).nodes.map@ == old(self).nodes.map@ && final(self).nodes.inst_bb == old(self).nodes.inst_bb,
            },
    { self.nodes.get_mut(k) }
    #[verifier::external_body]
    pub fn front_key(&self) -> (r: Option<&BasicBlock>)
        ensures match r { Some(k) => self.seq@.len() > 0 && *k == self.seq@[0], None => self.seq@.len() == 0 },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn keys(&self) -> (r: VxKeys<'_, BasicBlock>)
        ensures self.wf() ==> r@ == self.seq@,
    { unimplemented!() }
}
pub struct InstList { pub seq: Ghost<Seq<Value>>, pub nodes: InstMap }
impl InstList {
    /// the list's keys are its map's keys, each once
    pub open spec fn wf(&self) -> bool {
        &&& self.seq@.no_duplicates()
        &&& forall|k: Value| self.seq@.contains(k) == #[trigger] self.nodes.map@.contains_key(k)
    }
    pub fn with_map(map: InstMap) -> (r: Self)
        requires map.map@ == Map::<Value, InstNode>::empty(),
        ensures r.wf(), r.seq@ == Seq::<Value>::empty(), r.nodes == map,
    { InstList { seq: Ghost(Seq::empty()), nodes: map } }
    pub fn node_mut(&mut self, k: &Value) -> (r: Option<&mut InstNode>)
        ensures
            final(self).seq == old(self).seq,
            match r {
                Some(v) => old(self).nodes.map@.contains_key(*k) && *v == old(self).nodes.map@[*k] && final(self).nodes.map@ == old(self).nodes.map@.insert(*k, *final(v)) && final(self).nodes.inst_bb == old(self).nodes.inst_bb,
                None => !old(self).nodes.map@.contains_key(*k) && final(self).nodes.map@ == old(self).nodes.map@ && final(self).nodes.inst_bb == old(self).nodes.inst_bb,
            },
    { self.nodes.get_mut(k) }
    #[verifier::external_body]
    pub fn front_key(&self) -> (r: Option<&Value>)
        ensures match r { Some(k) => self.seq@.len() > 0 && *k == self.seq@[0], None => self.seq@.len() == 0 },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn keys(&self) -> (r: VxKeys<'_, Value>)
        ensures self.wf() ==> r@ == self.seq@,
    { unimplemented!() }
}

// ---- the property: the recorded parents are the blocks whose lists hold the instructions ----
pub open spec fn holds(m: Map<BasicBlock, BasicBlockNode>, b: BasicBlock, v: Value) -> bool {
    m.contains_key(b) && m[b].insts.nodes.map@.contains_key(v)
}
pub open spec fn agrees(m: Map<BasicBlock, BasicBlockNode>, ib: Map<Value, BasicBlock>) -> bool {
    forall|b: BasicBlock, v: Value| (ib.contains_key(v) && ib[v] == b) == #[trigger] holds(m, b, v)
}
pub open spec fn nodes_ok(m: Map<BasicBlock, BasicBlockNode>, id: int) -> bool {
    forall|b: BasicBlock| #[trigger] m.contains_key(b) ==> m[b].insts.wf() && m[b].insts.nodes.bb == b && m[b].insts.nodes.inst_bb.id() == id
}
/// the parents recorded after the instructions of `s` have left block `b`
pub open spec fn forgotten(ib: Map<Value, BasicBlock>, b: BasicBlock, s: Seq<Value>) -> Map<Value, BasicBlock> {
    ib.remove_keys(ib.dom().filter(|v: Value| s.contains(v) && ib[v] == b))
}
impl BasicBlockMap {
    pub open spec fn ok(&self, ib: VxIb) -> bool {
        ib.live@ && self.inst_bb.id() == ib.id@ && nodes_ok(self.map@, ib.id@)
    }
}
impl InstMap {
    pub open spec fn ok(&self, ib: VxIb) -> bool { ib.live@ && self.inst_bb.id() == ib.id@ }
}
impl Layout {
    /// the lists and the record of one layout
    pub open spec fn wf(&self, ib: VxIb) -> bool {
        &&& self.inst_bb.id() == ib.id@
        &&& self.bbs.wf()
        &&& self.bbs.nodes.ok(ib)
        &&& agrees(self.bbs.nodes.map@, ib.map@)
    }
    /// the block whose instruction list holds `v`
    pub open spec fn parent(&self, v: Value) -> Option<BasicBlock> {
        if exists|b: BasicBlock| holds(self.bbs.nodes.map@, b, v) { Some(choose|b: BasicBlock| holds(self.bbs.nodes.map@, b, v)) } else { None }
    }
}

//@ fn ir::layout::forget_parents
    requires inst_bb.id() == old(vx_ib).id@,
    ensures
        final(vx_ib).id == old(vx_ib).id, final(vx_ib).live == old(vx_ib).live,
        final(vx_ib).map@ =~= (if old(vx_ib).live@ { forgotten(old(vx_ib).map@, bb, insts.vals()) } else { old(vx_ib).map@ }),
//@ sig
fn forget_parents<'a, I: VxValues<'a>>(inst_bb: &VxWeakIb, bb: BasicBlock, insts: I, vx_ib: &mut VxIb)
//@ entry
        let ghost m0 = vx_ib.map@;
        let ghost s = insts.vals();
//@ beforeloop 0
        proof { assert(s.take(0) =~= Seq::<Value>::empty()); }
//@ loop 0
    invariant_except_break
        vx_it0.pos() <= s.len(),
        inst_bb@ =~= forgotten(m0, bb, s.take(vx_it0.pos() as int)),
    invariant
        vx_it0@ == s,
    ensures
        inst_bb@ =~= forgotten(m0, bb, s),
    decreases s.len() - vx_it0.pos(),
//@ loopstart 0
        proof { if vx_it0.pos() < s.len() { lemma_take_step(s, vx_it0.pos() as int); } else { assert(s.take(vx_it0.pos() as int) =~= s); } }
//@ end

impl InstMap {
    pub fn contains_key(&self, k: &Value) -> (r: bool)
        ensures r == self.map@.contains_key(*k),
    { self.get(k).is_some() }
//@ fn ir::layout::InstMap::new
    ensures r.bb == bb, r.inst_bb == inst_bb, r.map@ == Map::<Value, InstNode>::empty(),
//@ end
//@ fn ir::layout::InstMap@Map::len
    ensures r == self.map@.dom().len(),
//@ end
//@ fn ir::layout::InstMap@Map::get
    ensures r == (if self.map@.contains_key(*k) { Some(&self.map@[*k]) } else { None }),
//@ sig
pub fn get(&self, k: &Value) -> (r: Option<&InstNode>)
//@ end
//@ fn ir::layout::InstMap@Map::get_mut
    ensures match r {
        Some(v) => old(self).map@.contains_key(*k) && *v == old(self).map@[*k] && final(self).map@ == old(self).map@.insert(*k, *final(v)) && final(self).bb == old(self).bb && final(self).inst_bb == old(self).inst_bb,
        None => !old(self).map@.contains_key(*k) && final(self).map@ == old(self).map@ && final(self).bb == old(self).bb && final(self).inst_bb == old(self).inst_bb,
    },
//@ sig
pub fn get_mut(&mut self, k: &Value) -> (r: Option<&mut InstNode>)
//@ end
//@ fn ir::layout::InstMap@Map::insert
    requires old(self).ok(*old(vx_ib)),
    ensures
        final(self).bb == old(self).bb, final(self).inst_bb == old(self).inst_bb, final(self).ok(*final(vx_ib)), final(vx_ib).id == old(vx_ib).id,
        r is Ok == !old(self).map@.contains_key(k),
        r is Ok ==> final(self).map@.dom() =~= old(self).map@.dom().insert(k) && final(vx_ib).map@ == old(vx_ib).map@.insert(k, old(self).bb),
        r is Err ==> *final(self) == *old(self) && *final(vx_ib) == *old(vx_ib),
//@ sig
pub fn insert<T>(&mut self, k: Value, v: T, vx_ib: &mut VxIb) -> (r: Result<(), (Value, T)>)
//@ end
//@ fn ir::layout::InstMap@Map::remove_entry
    requires old(self).ok(*old(vx_ib)),
    ensures
        final(self).bb == old(self).bb, final(self).inst_bb == old(self).inst_bb, final(self).ok(*final(vx_ib)), final(vx_ib).id == old(vx_ib).id,
        r is Some == old(self).map@.contains_key(*k),
        r matches Some(e) ==> e.0 == *k && e.1 == old(self).map@[*k],
        final(self).map@ == old(self).map@.remove(*k),
        final(vx_ib).map@ =~= (if r is Some { forgotten(old(vx_ib).map@, old(self).bb, seq![*k]) } else { old(vx_ib).map@ }),
//@ sig
pub fn remove_entry(&mut self, k: &Value, vx_ib: &mut VxIb) -> (r: Option<(Value, InstNode)>)
//@ end
//@ fn ir::layout::InstMap@Map::clear
    requires old(self).ok(*old(vx_ib)),
    ensures
        final(self).bb == old(self).bb, final(self).inst_bb == old(self).inst_bb, final(self).ok(*final(vx_ib)), final(vx_ib).id == old(vx_ib).id,
        final(self).map@ == Map::<Value, InstNode>::empty(),
        final(vx_ib).map@ =~= old(vx_ib).map@.remove_keys(old(vx_ib).map@.dom().filter(|v: Value| old(self).map@.contains_key(v) && old(vx_ib).map@[v] == old(self).bb)),
//@ sig
pub fn clear(&mut self, vx_ib: &mut VxIb)
//@ end
}
impl BasicBlockNode {
//@ fn ir::layout::BasicBlockNode::new
    ensures r.insts.wf(), r.insts.seq@.len() == 0, r.insts.nodes.bb == bb, r.insts.nodes.inst_bb == inst_bb, r.insts.nodes.map@ == Map::<Value, InstNode>::empty(),
//@ end
//@ fn ir::layout::BasicBlockNode::insts
    ensures *r == self.insts,
//@ end
//@ fn ir::layout::BasicBlockNode::insts_mut
    ensures *r == old(self).insts, *final(self) == (BasicBlockNode { insts: *final(r), ..*old(self) }),
//@ end
}
impl BasicBlockMap {
//@ fn ir::layout::BasicBlockMap::new
    ensures r.inst_bb == inst_bb, r.map@ == Map::<BasicBlock, BasicBlockNode>::empty(),
//@ end
//@ fn ir::layout::BasicBlockMap@Map::len
    ensures r == self.map@.dom().len(),
//@ end
//@ fn ir::layout::BasicBlockMap@Map::get
    ensures r == (if self.map@.contains_key(*k) { Some(&self.map@[*k]) } else { None }),
//@ sig
pub fn get(&self, k: &BasicBlock) -> (r: Option<&BasicBlockNode>)
//@ end
//@ fn ir::layout::BasicBlockMap@Map::get_mut
    ensures match r {
        Some(v) => old(self).map@.contains_key(*k) && *v == old(self).map@[*k] && final(self).map@ == old(self).map@.insert(*k, *final(v)) && final(self).inst_bb == old(self).inst_bb,
        None => !old(self).map@.contains_key(*k) && final(self).map@ == old(self).map@ && final(self).inst_bb == old(self).inst_bb,
    },
//@ sig
pub fn get_mut(&mut self, k: &BasicBlock) -> (r: Option<&mut BasicBlockNode>)
//@ end
//@ fn ir::layout::BasicBlockMap@Map::insert
    requires old(self).ok(*old(vx_ib)), agrees(old(self).map@, old(vx_ib).map@),
    ensures
        final(self).ok(*final(vx_ib)), *final(vx_ib) == *old(vx_ib), final(self).inst_bb == old(self).inst_bb,
        r is Ok == !old(self).map@.contains_key(k),
        r is Ok ==> final(self).map@ == old(self).map@.insert(k, final(self).map@[k]) && final(self).map@[k].insts.seq@.len() == 0,
        r is Err ==> final(self).map@ == old(self).map@,
        agrees(final(self).map@, final(vx_ib).map@),
//@ sig
pub fn insert<T>(&mut self, k: BasicBlock, v: T, vx_ib: &mut VxIb) -> (r: Result<(), (BasicBlock, T)>)
//@ exit
        proof {
            assert forall|b: BasicBlock, x: Value| (vx_ib.map@.contains_key(x) && vx_ib.map@[x] == b) == #[trigger] holds(self.map@, b, x) by {
                assert(holds(old(self).map@, b, x) == holds(self.map@, b, x));
            }
        }
//@ end
//@ fn ir::layout::BasicBlockMap@Map::remove_entry
    requires old(self).ok(*old(vx_ib)), agrees(old(self).map@, old(vx_ib).map@),
    ensures
        final(self).ok(*final(vx_ib)), final(self).inst_bb == old(self).inst_bb, final(vx_ib).id == old(vx_ib).id,
        r is Some == old(self).map@.contains_key(*k),
        r matches Some(e) ==> e.0 == *k && e.1 == old(self).map@[*k],
        final(self).map@ == old(self).map@.remove(*k),
        agrees(final(self).map@, final(vx_ib).map@),
//@ sig
pub fn remove_entry(&mut self, k: &BasicBlock, vx_ib: &mut VxIb) -> (r: Option<(BasicBlock, BasicBlockNode)>)
//@ entry
        let ghost m0 = self.map@;
        let ghost ib0 = vx_ib.map@;
        proof { if !m0.contains_key(*k) { assert(m0.remove(*k) =~= m0); } }
//@ exit
        proof {
            assert forall|b: BasicBlock, v: Value| (vx_ib.map@.contains_key(v) && vx_ib.map@[v] == b) == #[trigger] holds(self.map@, b, v) by {
                assert(holds(m0, b, v) == (ib0.contains_key(v) && ib0[v] == b));
                if b == *k && m0.contains_key(b) { assert(m0[b].insts.seq@.contains(v) == m0[b].insts.nodes.map@.contains_key(v)); }
            }
        }
//@ end
//@ fn ir::layout::BasicBlockMap@Map::clear
    requires old(self).ok(*old(vx_ib)), agrees(old(self).map@, old(vx_ib).map@),
    ensures
        final(self).ok(*final(vx_ib)), final(self).inst_bb == old(self).inst_bb, final(vx_ib).id == old(vx_ib).id,
        final(self).map@ == Map::<BasicBlock, BasicBlockNode>::empty(),
        agrees(final(self).map@, final(vx_ib).map@),
//@ sig
pub fn clear(&mut self, vx_ib: &mut VxIb)
//@ entry
        let ghost ib0 = *vx_ib;
        let ghost m0 = self.map@;
//@ loop 0
    invariant_except_break
        vx_it0.pos() <= vx_it0.order().len(),
    invariant
        self == old(self), m0 == self.map@, vx_it0.map() == m0, agrees(m0, ib0.map@), nodes_ok(m0, ib0.id@),
        self.inst_bb.id() == vx_ib.id@, ib0.id == vx_ib.id, vx_ib.live@,
        forall|b: BasicBlock| map_order(m0).contains(b) == #[trigger] m0.contains_key(b),
        forall|v: Value| #[trigger] vx_ib.map@.contains_key(v) ==> ib0.map@.contains_key(v) && ib0.map@[v] == vx_ib.map@[v],
        forall|v: Value| #[trigger] vx_ib.map@.contains_key(v) ==> !vx_it0.order().take(vx_it0.pos() as int).contains(vx_ib.map@[v]),
    ensures
        vx_it0.pos() == vx_it0.order().len(),
    decreases vx_it0.order().len() - vx_it0.pos(),
//@ loopstart 0
        let ghost n = vx_it0.pos() as int;
        let ghost ib1 = vx_ib.map@;
        proof { if n < map_order(m0).len() { lemma_take_step(map_order(m0), n); assert(map_order(m0).contains(map_order(m0)[n])); } }
//@ bodyend 0
        proof {
            let b = map_order(m0)[n];
            assert forall|v: Value| #[trigger] vx_ib.map@.contains_key(v) implies !vx_it0.order().take(vx_it0.pos() as int).contains(vx_ib.map@[v]) by {
                assert(ib1.contains_key(v));
                if vx_ib.map@[v] == b { assert(holds(m0, b, v)); assert(m0[b].insts.seq@.contains(v)); }
            }
        }
//@ afterloop 0
        proof {
            assert(map_order(m0).take(map_order(m0).len() as int) =~= map_order(m0));
            assert forall|v: Value| !(#[trigger] vx_ib.map@.contains_key(v)) by {
                if vx_ib.map@.contains_key(v) { assert(holds(m0, vx_ib.map@[v], v)); }
            }
        }
//@ end
}
// ---- the edits of one block's list keep the whole layout in agreement ----
proof fn lemma_inst_insert(m: Map<BasicBlock, BasicBlockNode>, ib: Map<Value, BasicBlock>, b: BasicBlock, v: Value, n: BasicBlockNode)
    requires agrees(m, ib), m.contains_key(b), !ib.contains_key(v), n.insts.nodes.map@.dom() =~= m[b].insts.nodes.map@.dom().insert(v),
    ensures agrees(m.insert(b, n), ib.insert(v, b)),
{
    let m2 = m.insert(b, n);
    let ib2 = ib.insert(v, b);
    assert forall|c: BasicBlock, w: Value| (ib2.contains_key(w) && ib2[w] == c) == #[trigger] holds(m2, c, w) by {
        assert(holds(m, c, w) == (ib.contains_key(w) && ib[w] == c));
        if c == b { assert(n.insts.nodes.map@.contains_key(w) == m[b].insts.nodes.map@.dom().insert(v).contains(w)); }
    }
}
proof fn lemma_inst_remove(m: Map<BasicBlock, BasicBlockNode>, ib: Map<Value, BasicBlock>, b: BasicBlock, v: Value, n: BasicBlockNode)
    requires agrees(m, ib), m.contains_key(b), n.insts.nodes.map@ == m[b].insts.nodes.map@.remove(v),
    ensures
        m[b].insts.nodes.map@.contains_key(v) ==> agrees(m.insert(b, n), forgotten(ib, b, seq![v])),
        !m[b].insts.nodes.map@.contains_key(v) ==> agrees(m.insert(b, n), ib),
{
    let m2 = m.insert(b, n);
    let ib2 = forgotten(ib, b, seq![v]);
    assert(seq![v][0] == v);
    assert forall|c: BasicBlock, w: Value| (ib2.contains_key(w) && ib2[w] == c) == #[trigger] holds(m2, c, w) || !m[b].insts.nodes.map@.contains_key(v) by {
        assert(holds(m, c, w) == (ib.contains_key(w) && ib[w] == c));
        assert(holds(m, b, w) == (ib.contains_key(w) && ib[w] == b));
    }
    assert forall|c: BasicBlock, w: Value| (ib.contains_key(w) && ib[w] == c) == #[trigger] holds(m2, c, w) || m[b].insts.nodes.map@.contains_key(v) by {
        assert(holds(m, c, w) == (ib.contains_key(w) && ib[w] == c));
    }
}
proof fn lemma_inst_clear(m: Map<BasicBlock, BasicBlockNode>, ib: Map<Value, BasicBlock>, b: BasicBlock, n: BasicBlockNode)
    requires agrees(m, ib), m.contains_key(b), n.insts.nodes.map@ == Map::<Value, InstNode>::empty(),
    ensures agrees(m.insert(b, n), ib.remove_keys(ib.dom().filter(|v: Value| m[b].insts.nodes.map@.contains_key(v) && ib[v] == b))),
{
    let m2 = m.insert(b, n);
    let ib2 = ib.remove_keys(ib.dom().filter(|v: Value| m[b].insts.nodes.map@.contains_key(v) && ib[v] == b));
    assert forall|c: BasicBlock, w: Value| (ib2.contains_key(w) && ib2[w] == c) == #[trigger] holds(m2, c, w) by {
        assert(holds(m, c, w) == (ib.contains_key(w) && ib[w] == c));
        assert(holds(m, b, w) == (ib.contains_key(w) && ib[w] == b));
    }
}
impl Layout {
//@ fn ir::layout::Layout@Default::default as=vx_default
    ensures r.wf(*final(vx_ib)), r.bbs.seq@.len() == 0, final(vx_ib).map@ == Map::<Value, BasicBlock>::empty(),
//@ sig
pub fn vx_default(vx_ib: &mut VxIb) -> (r: Self)
//@ end
//@ fn ir::layout::Layout::new
    ensures r.wf(*final(vx_ib)), r.bbs.seq@.len() == 0, final(vx_ib).map@ == Map::<Value, BasicBlock>::empty(),
//@ sig
pub fn new(vx_ib: &mut VxIb) -> (r: Self)
//@ end
//@ fn ir::layout::Layout::bbs
    ensures *r == self.bbs,
//@ end
//@ fn ir::layout::Layout::bbs_mut
    ensures *r == old(self).bbs, *final(self) == (Layout { bbs: *final(r), ..*old(self) }),
//@ end
//@ fn ir::layout::Layout::bb_mut
    requires old(self).bbs.nodes.map@.contains_key(bb),
    ensures
        *r == old(self).bbs.nodes.map@[bb],
        final(self).bbs.seq == old(self).bbs.seq, final(self).inst_bb == old(self).inst_bb,
        final(self).bbs.nodes.map@ == old(self).bbs.nodes.map@.insert(bb, *final(r)),
        final(self).bbs.nodes.inst_bb == old(self).bbs.nodes.inst_bb,
//@ end
//@ fn ir::layout::Layout::entry_bb
    ensures r == (if self.bbs.seq@.len() > 0 { Some(self.bbs.seq@[0]) } else { None }),
//@ end
//@ fn ir::layout::Layout::parent_bb
    requires self.wf(*vx_ib),
    ensures r == self.parent(inst), r matches Some(b) ==> holds(self.bbs.nodes.map@, b, inst),
//@ sig
pub fn parent_bb(&self, inst: Value, vx_ib: &VxIb) -> (r: Option<BasicBlock>)
//@ entry
        proof {
            if exists|b: BasicBlock| holds(self.bbs.nodes.map@, b, inst) { let b = choose|b: BasicBlock| holds(self.bbs.nodes.map@, b, inst); assert(vx_ib.map@[inst] == b); }
            else if vx_ib.map@.contains_key(inst) { assert(holds(self.bbs.nodes.map@, vx_ib.map@[inst], inst)); }
        }
//@ end
}
} // verus!
fn main() {}
