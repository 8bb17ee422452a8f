// ---- shim/mapiter: iteration over a hash map ----
verus! {
/// Iteration over a map: every key exactly once, in an order of the map's own.
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::external_body]
pub struct MapIter<'a, K, V> { m: &'a HashMap<K, V> }
pub uninterp spec fn map_order<K, V>(m: Map<K, V>) -> Seq<K>;
impl<'a, K, V> MapIter<'a, K, V> {
    pub uninterp spec fn map(&self) -> Map<K, V>;
    pub uninterp spec fn pos(&self) -> nat;
    pub open spec fn order(&self) -> Seq<K> { map_order(self.map()) }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a K, &'a V)>)
        ensures
            final(self).map() == old(self).map(),
            old(self).pos() < old(self).order().len() ==> final(self).pos() == old(self).pos() + 1
                && match r { Some((k, v)) => *k == old(self).order()[old(self).pos() as int] && *v == old(self).map()[*k], None => false },
            old(self).pos() >= old(self).order().len() ==> final(self).pos() == old(self).pos() && r is None,
    { unimplemented!() }
}
impl<'a, K, V> VxIntoIter for &'a HashMap<K, V> {
    type It = MapIter<'a, K, V>;
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: MapIter<'a, K, V>)
        ensures
            r.map() == self@, r.pos() == 0,
            map_order(self@).no_duplicates(),
            forall|k: K| map_order(self@).contains(k) == #[trigger] self@.contains_key(k),
    { unimplemented!() }
}
} // verus!
