//@ include shim/base.vx
verus! {
//@ path NonZeroU32 => u32
//@ path ValueId => u32
//@ path BasicBlockId => u32
//@ path FunctionId => u32
//@ rule NonZeroU32::new(__e).unwrap() => __e
//@ rule __e.get() => __e
//@ rule __e.fetch_add(__k, __o) => __e.fetch_add(__k, Tracked(&mut *h))
//@ rule NonZeroU32::new_unchecked(__e) => vx_nonzero(__e)

/// What is known of one counter: which static it is, the value it holds now, and every value
/// it has handed out.  A counter that was never touched has no `key`.
pub tracked struct Counter { pub ghost key: Option<u64>, pub ghost next: int, pub ghost issued: Set<u32> }

/// std::sync::atomic::AtomicU32 held by a static: `fetch_add` returns the value held and
/// stores the sum (wrapping).  `&mut Counter` stands for the modification order of the static:
/// atomic read-modify-write operations of one object are totally ordered.
pub struct AtomicU32 { pub k: u64, pub init: u32 }
impl AtomicU32 {
    pub fn vx_static(k: u64, init: u32) -> (r: AtomicU32)
        ensures r.k == k, r.init == init,
    { AtomicU32 { k, init } }

    #[verifier::external_body]
    pub fn fetch_add(&self, d: u32, Tracked(h): Tracked<&mut Counter>) -> (r: u32)
        requires old(h).key is None || old(h).key == Some(self.k), self.k == 0,
        ensures
            r == (if old(h).key is None { self.init as int } else { old(h).next }),
            final(h).key == Some(self.k),
            final(h).next == (if r + d > u32::MAX { r + d - u32::MAX - 1 } else { r + d }),
            final(h).issued == old(h).issued.insert(r),
    { unimplemented!() }
}
/// NonZeroU32::new_unchecked: undefined behaviour on zero.
pub fn vx_nonzero(x: u32) -> (r: u32)
    requires x != 0,
    ensures r == x,
{ x }

//@ item ir::idman::GLOBAL_VALUE_ID_STARTS_FROM
//@ item ir::idman::LOCAL_VALUE_ID_STARTS_FROM
//@ item ir::idman::BB_ID_STARTS_FROM
//@ item ir::idman::FUNC_ID_STARTS_FROM

impl Counter {
    /// handles come from `lo .. hi`, upwards
    pub open spec fn wf(self, lo: int, hi: int) -> bool {
        &&& self.key is None || self.key == Some(0u64)
        &&& self.key is None ==> self.issued == Set::<u32>::empty()
        &&& self.key is Some ==> lo <= self.next <= hi && forall|x: u32| #[trigger] self.issued.contains(x) ==> lo <= x < self.next
    }
    pub open spec fn has_room(self, hi: int) -> bool { self.key is None || self.next < hi }
}
pub spec const LOCAL_LO: int = 0x4000_0000;
pub spec const LAST: int = 0xffff_ffff;

//@ fn ir::idman::next_global_value_id
    requires old(h).wf(1, LOCAL_LO), old(h).has_room(LOCAL_LO),
    ensures
        !old(h).issued.contains(r), 1 <= r < LOCAL_LO,
        final(h).wf(1, LOCAL_LO), final(h).issued == old(h).issued.insert(r),
//@ sig
pub fn next_global_value_id(Tracked(h): Tracked<&mut Counter>) -> (r: u32)
//@ end
//@ fn ir::idman::next_local_value_id
    requires old(h).wf(LOCAL_LO, LAST), old(h).has_room(LAST),
    ensures
        !old(h).issued.contains(r), LOCAL_LO <= r < LAST,
        final(h).wf(LOCAL_LO, LAST), final(h).issued == old(h).issued.insert(r),
//@ sig
pub fn next_local_value_id(Tracked(h): Tracked<&mut Counter>) -> (r: u32)
//@ end
//@ fn ir::idman::next_bb_id
    requires old(h).wf(1, LAST), old(h).has_room(LAST),
    ensures
        !old(h).issued.contains(r), 1 <= r < LAST,
        final(h).wf(1, LAST), final(h).issued == old(h).issued.insert(r),
//@ sig
pub fn next_bb_id(Tracked(h): Tracked<&mut Counter>) -> (r: u32)
//@ end
//@ fn ir::idman::next_func_id
    requires old(h).wf(1, LAST), old(h).has_room(LAST),
    ensures
        !old(h).issued.contains(r), 1 <= r < LAST,
        final(h).wf(1, LAST), final(h).issued == old(h).issued.insert(r),
//@ sig
pub fn next_func_id(Tracked(h): Tracked<&mut Counter>) -> (r: u32)
//@ end
//@ fn ir::idman::is_global_id
    ensures r == (1 <= value < LOCAL_LO),
//@ end

//@ item ir::entities::Value #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ item ir::entities::BasicBlock #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ item ir::entities::Function #[derive(Clone, Copy, PartialEq, Eq, Structural)]
impl Value {
//@ fn ir::entities::Value::is_global
    ensures r == (1 <= self.0 < LOCAL_LO),
//@ end
}

/// "no counter has run out of numbers" (stated assumption: fewer than 2^30 handles of a sort)
#[verifier::external_body]
fn vx_room(Tracked(g): Tracked<&Counter>, Tracked(l): Tracked<&Counter>) -> (r: bool)
    ensures r ==> g.has_room(LOCAL_LO) && l.has_room(LAST),
{ unimplemented!() }

/// The property: handles of one sort never repeat over any number of allocations, and the two
/// classes of value handles are recognised by `is_global_id`.
fn handles_are_fresh(n: u32)
{
    let tracked mut gh = Counter { key: None, next: 0int, issued: Set::empty() };
    let tracked mut lh = Counter { key: None, next: 0int, issued: Set::empty() };
    let mut i = 0u32;
    let ghost mut seen: Seq<u32> = Seq::empty();
    while i < n
        invariant
            gh.wf(1, LOCAL_LO), lh.wf(LOCAL_LO, LAST),
            seen.no_duplicates(),
            forall|x: u32| seen.contains(x) ==> gh.issued.contains(x) || lh.issued.contains(x),
        decreases n - i,
    {
        if !vx_room(Tracked(&gh), Tracked(&lh)) { break; }
        let g = next_global_value_id(Tracked(&mut gh));
        let l = next_local_value_id(Tracked(&mut lh));
        let b0 = is_global_id(g);
        let b1 = is_global_id(l);
        assert(b0 && !b1);
        proof {
            assert(!seen.contains(g));
            assert(!seen.contains(l));
            let s1 = seen.push(g);
            assert(s1.no_duplicates());
            assert(!s1.contains(l));
            assert(s1.push(l).no_duplicates());
            assert forall|x: u32| s1.push(l).contains(x) implies gh.issued.contains(x) || lh.issued.contains(x) by {
                if x != g && x != l { let k = s1.push(l).index_of(x); assert(seen[k] == x); assert(seen.contains(x)); }
            }
            seen = s1.push(l);
        }
        i += 1;
    }
}
} // verus!
fn main() {}
