verus! {
impl<'a> ValueUses<'a> {
//@ fn ir::entities::ValueUses::next
    requires
        old(self).index < usize::MAX,
        small(*old(self).kind),
    ensures
        final(self).kind == old(self).kind,
        final(self).index == old(self).index + 1,
        old(self).index < operands(*old(self).kind).len() ==> r == Some(operands(*old(self).kind)[old(self).index as int]),
        old(self).index >= operands(*old(self).kind).len() ==> r is None,
//@ sig
pub fn next(&mut self) -> (r: Option<Value>)
//@ end
    pub fn vx_into_iter(self) -> (r: Self)
        ensures r == self,
    { self }
}
impl<'a> BasicBlockUses<'a> {
//@ fn ir::entities::BasicBlockUses::next
    requires
        old(self).index < usize::MAX,
    ensures
        final(self).kind == old(self).kind,
        final(self).index == old(self).index + 1,
        old(self).index < targets(*old(self).kind).len() ==> r == Some(targets(*old(self).kind)[old(self).index as int]),
        old(self).index >= targets(*old(self).kind).len() ==> r is None,
//@ sig
pub fn next(&mut self) -> (r: Option<BasicBlock>)
//@ end
    pub fn vx_into_iter(self) -> (r: Self)
        ensures r == self,
    { self }
}
} // verus!
