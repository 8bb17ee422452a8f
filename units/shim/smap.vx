// ---- shim/smap: hash maps and sets keyed by names ----
//@ type HashMap<__K, __V> => SMap<__V>
//@ type HashSet<__T> => SSet
//@ path HashMap::new => SMap::new
//@ path HashSet::new => SSet::new
//@ type str => String
verus! {
pub trait VxStr { spec fn sv(&self) -> Seq<char>; }
impl VxStr for String { open spec fn sv(&self) -> Seq<char> { self@ } }
impl<'a, T: VxStr> VxStr for &'a T { open spec fn sv(&self) -> Seq<char> { (**self).sv() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct SMap<V> { x: std::marker::PhantomData<V> }
impl<V> SMap<V> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Map::<Seq<char>, V>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: VxStr>(&self, k: &Q) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.contains_key(k.sv()) && *v == self@[k.sv()], None => !self@.contains_key(k.sv()) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<Q: VxStr>(&mut self, k: &Q) -> (r: Option<&mut V>)
        ensures match r {
            Some(v) => old(self)@.contains_key(k.sv()) && *v == old(self)@[k.sv()] && final(self)@ == old(self)@.insert(k.sv(), *final(v)),
            None => !old(self)@.contains_key(k.sv()) && *final(self) == *old(self),
        },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_at<Q: VxStr>(&self, k: &Q) -> (r: &V)
        requires self@.contains_key(k.sv()),
        ensures *r == self@[k.sv()],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: VxStr>(&self, k: &Q) -> (r: bool)
        ensures r == self@.contains_key(k.sv()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert<Q: VxStr>(&mut self, k: Q, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k.sv(), v), (r is Some) == old(self)@.contains_key(k.sv()),
            r is Some ==> r->0 == old(self)@[k.sv()],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self)
        ensures final(self)@ == Map::<Seq<char>, V>::empty(),
    { unimplemented!() }
    /// the entries one by one, in some order
    #[verifier::external_body]
    pub fn vx_into_iter(self) -> (r: SMapIter<V>)
        ensures r.of() == self@,
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct SMapIter<V> { x: std::marker::PhantomData<V> }
impl<V> SMapIter<V> {
    pub uninterp spec fn left(&self) -> nat;
    pub uninterp spec fn of(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'static String, V)>)
        ensures final(self).of() == old(self).of(),
            r matches Some((k, v)) ==> final(self).left() < old(self).left() && old(self).of().contains_key(k@) && old(self).of()[k@] == v,
    { unimplemented!() }
}
#[verifier::external_body]
pub struct SSet { x: usize }
impl SSet {
    pub uninterp spec fn view(&self) -> Set<Seq<char>>;
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Set::<Seq<char>>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains<Q: VxStr>(&self, k: &Q) -> (r: bool)
        ensures r == self@.contains(k.sv()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert<Q: VxStr>(&mut self, k: Q) -> (r: bool)
        ensures final(self)@ == old(self)@.insert(k.sv()), r == !old(self)@.contains(k.sv()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self)
        ensures final(self)@ == Set::<Seq<char>>::empty(),
    { unimplemented!() }
    /// `extend(m.keys().cloned())`
    #[verifier::external_body]
    pub fn vx_extend_keys<V>(&mut self, m: &SMap<V>)
        ensures final(self)@ == old(self)@.union(m@.dom()),
    { unimplemented!() }
}

} // verus!
