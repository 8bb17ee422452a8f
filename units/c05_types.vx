//@ include shim/base.vx
//@ include shim/text.vx
verus! {
//@ type Rc<TypeKind> => VxRc
//@ rule Self::POOL.with(|__p| __e) => { let __p = &mut *vx_pool; __e }
//@ rule __e.borrow_mut() => __e
//@ rule __e.unwrap_or_else(|| __f) => match __e { Some(vx_x) => vx_x, None => __f }
//@ rule __e.get(__k).cloned() => vx_cloned(__e.get(__k))
//@ rule Rc::new(__e) => VxRc::new(__e, Ghost(vx_p0))
//@ rule Rc::ptr_eq(__a, __b) => VxRc::ptr_eq(__a, __b)
//@ rule Type::get(__k) => Type::get(__k, &mut *vx_pool)
//@ rule PTR_SIZE.load(__o) => vx_ptr_size(Ghost(vx_psize))
//@ rule PTR_SIZE.store(__s, __o) => vx_set_ptr_size(__s, Tracked(&mut *vx_psize))
//@ rule __e.size() => __e.size(Ghost(vx_psize))

/// A reference-counted type: the content and the identity of the allocation.
pub struct VxRc { pub k: std::rc::Rc<TypeKind>, pub id: Ghost<int> }
//@ item ir::types::TypeKind
//@ item ir::types::Type

impl VxRc {
    /// Rc::new: an allocation different from those that are alive (the pool keeps its own)
    #[verifier::external_body]
    pub fn new(k: TypeKind, Ghost(p): Ghost<Map<TypeKind, Type>>) -> (r: VxRc)
        ensures *r.k == k, forall|x: TypeKind| #[trigger] p.contains_key(x) ==> p[x].0.id@ != r.id@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn ptr_eq(a: &VxRc, b: &VxRc) -> (r: bool)
        ensures r == (a.id@ == b.id@),
    { unimplemented!() }
    pub fn as_ref(&self) -> (r: &TypeKind)
        ensures *r == *self.k,
    { &self.k }
}
impl Type {
    /// derived: clones the reference
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Type)
        ensures r == *self,
    { unimplemented!() }
    pub open spec fn kd(self) -> TypeKind { *self.0.k }
}
impl TypeKind {
    /// derived: clones the parts
    #[verifier::external_body]
    pub fn clone(&self) -> (r: TypeKind)
        ensures r == *self,
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_cloned(x: Option<&Type>) -> (r: Option<Type>)
    ensures match x { Some(t) => r == Some(*t), None => r is None },
{ unimplemented!() }

/// The structure of a type, without identities.
pub enum Shape { I32, Unit, Array(Box<Shape>, usize), Pointer(Box<Shape>), Function(Seq<Shape>, Box<Shape>) }
pub open spec fn shape(t: Type) -> Shape
    decreases t,
{
    kind_shape(*t.0.k)
}
pub open spec fn kind_shape(k: TypeKind) -> Shape
    decreases k,
{
    match k {
        TypeKind::Int32 => Shape::I32,
        TypeKind::Unit => Shape::Unit,
        TypeKind::Array(b, n) => Shape::Array(Box::new(shape(b)), n),
        TypeKind::Pointer(b) => Shape::Pointer(Box::new(shape(b))),
        TypeKind::Function(ps, r) => Shape::Function(Seq::new(ps@.len(), |i: int| if 0 <= i < ps@.len() { shape(ps@[i]) } else { Shape::Unit }), Box::new(shape(r))),
    }
}
pub type Pool = Map<TypeKind, Type>;
/// made by the constructors, on this thread
pub open spec fn interned(p: Pool, t: Type) -> bool {
    p.contains_key(t.kd()) && p[t.kd()] == t
}
pub open spec fn parts_interned(p: Pool, k: TypeKind) -> bool {
    match k {
        TypeKind::Int32 | TypeKind::Unit => true,
        TypeKind::Array(b, _) => interned(p, b),
        TypeKind::Pointer(b) => interned(p, b),
        TypeKind::Function(ps, r) => interned(p, r) && forall|i: int| 0 <= i < ps@.len() ==> interned(p, #[trigger] ps@[i]),
    }
}
pub open spec fn pool_wf(p: Pool) -> bool {
    &&& forall|k: TypeKind| #[trigger] p.contains_key(k) ==> p[k].kd() == k && parts_interned(p, k)
    &&& forall|k: TypeKind, l: TypeKind| #[trigger] p.contains_key(k) && #[trigger] p.contains_key(l) && p[k].0.id@ == p[l].0.id@ ==> k == l
}
pub open spec fn grows(p: Pool, q: Pool) -> bool {
    forall|k: TypeKind| #[trigger] p.contains_key(k) ==> q.contains_key(k) && q[k] == p[k]
}

/// Two types of the pool are the same allocation exactly when they have the same structure.
pub proof fn same_shape_same_type(p: Pool, a: Type, b: Type)
    requires pool_wf(p), interned(p, a), interned(p, b), shape(a) == shape(b),
    ensures a == b,
    decreases a,
{
    assert(p.contains_key(a.kd()) && p.contains_key(b.kd()));
    let (ka, kb) = (a.kd(), b.kd());
    match (ka, kb) {
        (TypeKind::Array(x, n), TypeKind::Array(y, m)) => { same_shape_same_type(p, x, y); }
        (TypeKind::Pointer(x), TypeKind::Pointer(y)) => { same_shape_same_type(p, x, y); }
        (TypeKind::Function(ps, x), TypeKind::Function(qs, y)) => {
            same_shape_same_type(p, x, y);
            let s = kind_shape(a.kd())->Function_0;
            let t = kind_shape(b.kd())->Function_0;
            assert(s == t);
            assert(s.len() == ps@.len() && t.len() == qs@.len());
            assert forall|i: int| 0 <= i < ps@.len() implies ps@[i] == qs@[i] by {
                assert(s[i] == shape(ps@[i]));
                assert(t[i] == shape(qs@[i]));
                same_shape_same_type(p, ps@[i], qs@[i]);
            }
            assert(ps@ =~= qs@);
            vec_ext(ps, qs);
        }
        _ => {}
    }
    assert(a.kd() == b.kd());
}
/// vectors with the same elements are the same vector (capacity is not observed)
#[verifier::external_body]
pub proof fn vec_ext(a: Vec<Type>, b: Vec<Type>)
    requires a@ == b@,
    ensures a == b,
{}
pub proof fn eq_iff_same_shape(p: Pool, a: Type, b: Type)
    requires pool_wf(p), interned(p, a), interned(p, b),
    ensures (a.0.id@ == b.0.id@) == (shape(a) == shape(b)), (a.0.id@ == b.0.id@) == (a == b),
{
    assert(p.contains_key(a.kd()) && p.contains_key(b.kd()));
    if shape(a) == shape(b) { same_shape_same_type(p, a, b); }
}
/// A type made earlier stays what it was, and stays equal exactly to its structural equals.
pub proof fn still_interned(p: Pool, q: Pool, t: Type)
    requires interned(p, t), grows(p, q),
    ensures interned(q, t),
{}

/// the configured pointer size
pub uninterp spec fn psize_of(x: int) -> usize;
#[verifier::external_body]
pub fn vx_ptr_size(Ghost(s): Ghost<usize>) -> (r: usize)
    ensures r == s,
{ unimplemented!() }
pub tracked struct PtrSize { pub ghost s: usize }
#[verifier::external_body]
pub fn vx_set_ptr_size(n: usize, Tracked(s): Tracked<&mut PtrSize>)
    ensures final(s).s == n,
{ unimplemented!() }

/// The size rules.
pub open spec fn size_of_type(t: Type, psize: usize) -> int
    decreases t,
{
    match *t.0.k {
        TypeKind::Int32 => 4,
        TypeKind::Unit => 0,
        TypeKind::Array(b, n) => size_of_type(b, psize) * n,
        TypeKind::Pointer(_) => psize as int,
        TypeKind::Function(_, _) => psize as int,
    }
}
/// every intermediate product fits (an array has at least one element)
pub open spec fn sizes_fit(t: Type, psize: usize) -> bool
    decreases t,
{
    size_of_type(t, psize) <= usize::MAX && match *t.0.k { TypeKind::Array(b, _) => sizes_fit(b, psize), _ => true }
}

/// The textual type syntax.
pub open spec fn texts_in(t: Type, ps: Seq<Type>) -> Seq<Seq<char>>
    decreases t, 0int,
{
    Seq::new(ps.len(), |i: int| if decreases_to!(t => ps[i]) { show_type(ps[i]) } else { seq![] })
}
pub open spec fn show_type(t: Type) -> Seq<char>
    decreases t, 1int,
{
    match *t.0.k {
        TypeKind::Int32 => seq!['i', '3', '2'],
        TypeKind::Unit => seq!['u', 'n', 'i', 't'],
        TypeKind::Array(b, n) => seq!['['] + show_type(b) + seq![',', ' '] + dec(n as int) + seq![']'],
        TypeKind::Pointer(b) => seq!['*'] + show_type(b),
        TypeKind::Function(ps, r) => seq!['('] + show_list(texts_in(t, ps@)) + (if *r.0.k is Unit { seq![')'] } else { seq![')', ':', ' '] + show_type(r) }),
    }
}
pub open spec fn show_list(s: Seq<Seq<char>>) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 { seq![] } else if s.len() == 1 { s[0] } else { show_list(s.drop_last()) + seq![',', ' '] + s.last() }
}
pub open spec fn type_texts(ps: Seq<Type>) -> Seq<Seq<char>> { ps.map_values(|x: Type| show_type(x)) }
impl VxShow for Type {
    open spec fn show(&self) -> Seq<char> { show_type(*self) }
}

impl Type {
//@ fn ir::types::Type::get
    requires pool_wf(old(vx_pool)@), parts_interned(old(vx_pool)@, type_data),
    ensures
        r.kd() == type_data,
        interned(final(vx_pool)@, r), pool_wf(final(vx_pool)@), grows(old(vx_pool)@, final(vx_pool)@),
//@ sig
pub fn get(type_data: TypeKind, vx_pool: &mut HashMap<TypeKind, Type>) -> (r: Type)
//@ entry
        let ghost vx_p0 = vx_pool@;
//@ end
//@ fn ir::types::Type::get_i32
    requires pool_wf(old(vx_pool)@),
    ensures
        shape(r) == Shape::I32,
        interned(final(vx_pool)@, r), pool_wf(final(vx_pool)@), grows(old(vx_pool)@, final(vx_pool)@),
//@ sig
pub fn get_i32(vx_pool: &mut HashMap<TypeKind, Type>) -> (r: Type)
//@ end
//@ fn ir::types::Type::get_unit
    requires pool_wf(old(vx_pool)@),
    ensures
        shape(r) == Shape::Unit,
        interned(final(vx_pool)@, r), pool_wf(final(vx_pool)@), grows(old(vx_pool)@, final(vx_pool)@),
//@ sig
pub fn get_unit(vx_pool: &mut HashMap<TypeKind, Type>) -> (r: Type)
//@ end
//@ fn ir::types::Type::get_array
    requires pool_wf(old(vx_pool)@), interned(old(vx_pool)@, base), len != 0,
    ensures
        shape(r) == Shape::Array(Box::new(shape(base)), len),
        interned(final(vx_pool)@, r), pool_wf(final(vx_pool)@), grows(old(vx_pool)@, final(vx_pool)@),
//@ sig
pub fn get_array(base: Type, len: usize, vx_pool: &mut HashMap<TypeKind, Type>) -> (r: Type)
//@ end
//@ fn ir::types::Type::get_array as=get_array_refusing panics=exit
    requires pool_wf(old(vx_pool)@), interned(old(vx_pool)@, base),
    ensures
        len != 0,
//@ sig
pub fn get_array_refusing(base: Type, len: usize, vx_pool: &mut HashMap<TypeKind, Type>) -> (r: Type)
//@ end
//@ fn ir::types::Type::get_pointer
    requires pool_wf(old(vx_pool)@), interned(old(vx_pool)@, base),
    ensures
        shape(r) == Shape::Pointer(Box::new(shape(base))),
        interned(final(vx_pool)@, r), pool_wf(final(vx_pool)@), grows(old(vx_pool)@, final(vx_pool)@),
//@ sig
pub fn get_pointer(base: Type, vx_pool: &mut HashMap<TypeKind, Type>) -> (r: Type)
//@ end
//@ fn ir::types::Type::get_function
    requires pool_wf(old(vx_pool)@), interned(old(vx_pool)@, ret), forall|i: int| 0 <= i < params@.len() ==> interned(old(vx_pool)@, #[trigger] params@[i]),
    ensures
        r.kd() == TypeKind::Function(params, ret),
        interned(final(vx_pool)@, r), pool_wf(final(vx_pool)@), grows(old(vx_pool)@, final(vx_pool)@),
//@ sig
pub fn get_function(params: Vec<Type>, ret: Type, vx_pool: &mut HashMap<TypeKind, Type>) -> (r: Type)
//@ end
//@ fn ir::types::Type::kind
    ensures *r == self.kd(),
//@ rule &self.0 => self.0.as_ref()
//@ end
//@ fn ir::types::Type::is_i32
    ensures r == (shape(*self) is I32),
//@ end
//@ fn ir::types::Type::is_unit
    ensures r == (shape(*self) is Unit),
//@ end
//@ fn ir::types::Type::size
    requires sizes_fit(*self, vx_psize),
    ensures r == size_of_type(*self, vx_psize),
    decreases *self,
//@ sig
pub fn size(&self, Ghost(vx_psize): Ghost<usize>) -> (r: usize)
//@ entry
        proof { if let TypeKind::Array(b, n) = self.kd() { assert(size_of_type(*self, vx_psize) == size_of_type(b, vx_psize) * n); } }
//@ end
//@ fn ir::types::Type::set_ptr_size
    ensures final(vx_psize).s == size,
//@ sig
pub fn set_ptr_size(size: usize, Tracked(vx_psize): Tracked<&mut PtrSize>)
//@ end
//@ fn ir::types::Type@PartialEq::eq as=type_eq
    requires exists|p: Pool| #[trigger] pool_wf(p) && interned(p, *self) && interned(p, *other),
    ensures r == (shape(*self) == shape(*other)), r == (*self == *other),
//@ sig
pub fn type_eq(&self, other: &Type) -> (r: bool)
//@ entry
        proof {
            let p = choose|p: Pool| pool_wf(p) && interned(p, *self) && interned(p, *other);
            eq_iff_same_shape(p, *self, *other);
        }
//@ end
//@ fn ir::types::Type@Display::fmt as=type_fmt
    ensures r is Ok, final(f).out == old(f).out + show_type(*self),
//@ sig
pub fn type_fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>)
//@ end
//@ fn ir::types::Type@Debug::fmt as=type_fmt_debug
    ensures r is Ok, final(f).out == old(f).out + show_type(*self),
//@ sig
pub fn type_fmt_debug(&self, f: &mut Formatter) -> (r: Result<(), FmtError>)
//@ end
}
impl VxShow for VxRc {
    open spec fn show(&self) -> Seq<char> { show_type(Type(*self)) }
}
impl TypeKind {
//@ fn ir::types::TypeKind@Display::fmt as=kind_fmt
    ensures r is Ok, final(f).out == old(f).out + show_type(of),
//@ sig
pub fn kind_fmt(&self, f: &mut Formatter, Ghost(of): Ghost<Type>) -> (r: Result<(), FmtError>)
    requires *self == of.kd(),
//@ entry
        let ghost o0 = f.out;
        proof { lemma_texts(of); }
//@ loop 0
    invariant_except_break
        vx_it0.i <= params@.len(),
        first == (vx_it0.i == 0),
        f.out == o0 + seq!['('] + show_list(type_texts(params@).take(vx_it0.i as int)),
    invariant
        vx_it0.s@ == params@,
    ensures
        f.out == o0 + seq!['('] + show_list(type_texts(params@)),
    decreases params@.len() - vx_it0.i,
//@ loopstart 0
        proof {
            assert(type_texts(params@).take(params@.len() as int) =~= type_texts(params@));
            if vx_it0.i < params@.len() {
                let s = type_texts(params@).take(vx_it0.i + 1);
                assert(s.drop_last() =~= type_texts(params@).take(vx_it0.i as int));
                assert(s.last() == show_type(params@[vx_it0.i as int]));
            }
        }
//@ bodyend 0
        proof { assert(f.out =~= o0 + seq!['('] + show_list(type_texts(params@).take(vx_it0.i as int))); }
//@ exit
        proof {
            match of.kd() {
                TypeKind::Int32 => { assert(f.out =~= o0 + seq!['i', '3', '2']); }
                TypeKind::Unit => { assert(f.out =~= o0 + seq!['u', 'n', 'i', 't']); }
                TypeKind::Array(b, n) => { assert(f.out =~= o0 + (seq!['['] + show_type(b) + seq![',', ' '] + dec(n as int) + seq![']'])); }
                TypeKind::Pointer(b) => { assert(f.out =~= o0 + (seq!['*'] + show_type(b))); }
                TypeKind::Function(ps, r) => {
                    assert(f.out =~= o0 + (seq!['('] + show_list(type_texts(ps@)) + (if r.kd() is Unit { seq![')'] } else { seq![')', ':', ' '] + show_type(r) })));
                }
            }
        }
//@ end
}
pub proof fn lemma_texts(t: Type)
    ensures t.kd() is Function ==> texts_in(t, t.kd()->Function_0@) == type_texts(t.kd()->Function_0@),
{
    if t.kd() is Function {
        let ps = t.kd()->Function_0@;
        assert(texts_in(t, ps) =~= type_texts(ps));
    }
}
} // verus!
fn main() {}
