// ---- shim/rawheap: boxes, buffers and C strings: memory whose address others hold ----
//@ type Box<UnsafeCell<__T>> => VxBox<__T>
//@ type Box<__T> => VxBox<__T>
//@ type HashMap<String, CString> => StrMap
//@ rule Box::new(__e) => VxBox::new(__e)
//@ rule __e.as_ptr() as VxPtr => vx_buf(&__e)
//@ rule __e as VxPtr => __e
//@ rule __e as _ => __e
//@ rule **__a = __e => *__a.get_mut() = __e
//@ rule null() => VxPtr { a: 0 }
//@ rule CString::new(__e).expect(__m) => vx_cstring(__e)
//@ rule __o.replace(__v) => vx_replace(&mut __o, __v)
//@ rule __o.map_or(__d, |__s| __e) => match __o { Some(__s) => __e, None => __d }
//@ rule __e.copied().collect() => vx_to_vec(__e)
//@ rule __i.filter_map(|__v| __f).map(|__w| __g).collect() => { let mut vx_w = Vec::new(); for __v in __i { match __f { Some(__w) => { vx_w.push(__g); }, None => {} } } vx_w }
//@ rule __i.map(|__v| __f).collect() => { let mut vx_v = Vec::new(); for __v in __i { vx_v.push(__f); } vx_v }
//@ path R::NULL => vx_null
verus! {
pub const vx_null: VxPtr = VxPtr { a: 0 };
impl VxPtr {
    pub fn into_any(self) -> (r: VxPtr) ensures r == self, { self }
}

/// A heap object and its address, which stays the same while the box lives.
pub struct VxBox<T> { pub c: T, pub p: VxPtr }
impl<T> VxBox<T> {
    #[verifier::external_body]
    pub fn new(c: T) -> (r: Self) ensures r.c == c, r.p.a != 0, { unimplemented!() }
    /// the address of the content
    pub fn as_ref(&self) -> (r: VxPtr) ensures r == self.p, { self.p }
    pub fn get(&self) -> (r: VxPtr) ensures r == self.p, { self.p }
    pub fn get_mut(&mut self) -> (r: &mut T)
        ensures *r == old(self).c, final(self).c == *final(r), final(self).p == old(self).p,
    { &mut self.c }
}
/// some content
#[verifier::external_body]
pub fn new_uninit_box<T>() -> (r: VxBox<T>) ensures r.p.a != 0, { unimplemented!() }

/// the address of a vector's buffer; it stays the same while the vector does
pub uninterp spec fn vec_addr(v: Vec<VxPtr>) -> VxPtr;
#[verifier::external_body]
pub fn vx_buf(v: &Vec<VxPtr>) -> (r: VxPtr) ensures r == vec_addr(*v), { unimplemented!() }

#[verifier::external_body]
pub struct CString { x: usize }
impl CString {
    pub uninterp spec fn view(&self) -> Seq<char>;
    pub uninterp spec fn addr(&self) -> VxPtr;
    #[verifier::external_body]
    pub fn as_ptr(&self) -> (r: VxPtr) ensures r == self.addr(), { unimplemented!() }
}
pub open spec fn no_nul(s: Seq<char>) -> bool { !s.contains('\0') }
#[verifier::external_body]
pub fn vx_cstring(s: &str) -> (r: CString) requires no_nul(s@), ensures r@ == s@, r.addr().a != 0, { unimplemented!() }
#[verifier::external_body]
pub struct StrMap { x: usize }
impl StrMap {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, CString>;
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&CString>)
        ensures match r { Some(v) => self@.contains_key(k@) && *v == self@[k@], None => !self@.contains_key(k@) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: CString) -> (r: Option<CString>)
        ensures final(self)@ == old(self)@.insert(k@, v),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_owned(s: &str) -> (r: String) ensures r@ == s@, { unimplemented!() }

pub fn vx_replace<T>(o: &mut Option<T>, v: T) -> (r: Option<T>)
    ensures r == *old(o), *final(o) == Some(v),
{
    let r = vx_opt_take(o);
    *o = Some(v);
    r
}
#[verifier::external_body]
pub fn vx_opt_take<T>(o: &mut Option<T>) -> (r: Option<T>) ensures r == *old(o), { unimplemented!() }
#[verifier::external_body]
pub fn take<K, V>(m: &mut HashMap<K, V>) -> (r: HashMap<K, V>)
    ensures r@ == old(m)@, final(m)@ == Map::<K, V>::empty(),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_to_vec<T: Copy>(i: SliceIter<'_, T>) -> (r: Vec<T>)
    requires i.i == 0,
    ensures r@ == i.s@,
{ unimplemented!() }
} // verus!
