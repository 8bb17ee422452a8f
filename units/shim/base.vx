//@ rule take(__e) => vx_take(__e)
// ---- shim/base: trusted models of what the extracted code calls outside the crate ----
use vstd::prelude::*;
verus! {
global size_of usize == 8;

/// A reachable panic is a failed precondition.
#[verifier::external_body]
pub fn vx_panic() -> !
    requires false,
{ unimplemented!() }

/// A panic on a path where panicking is the specified behaviour (`panics=exit`).
#[verifier::external_body]
pub fn vx_exit() -> !
    ensures false,
{ unimplemented!() }

/// `expect`/`unwrap` where refusing is the specified behaviour.
#[verifier::external_body]
pub fn vx_expect_or_exit<T>(o: Option<T>) -> (r: T)
    ensures o == Some(r),
{ unimplemented!() }

// ---- std::collections::HashMap (std hash map of Hash + Eq keys) ----
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { m: std::collections::HashMap<K, V> }

impl<K, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;

    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Map::<K, V>::empty(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures match r {
            Some(v) => self@.contains_key(*k) && *v == self@[*k],
            None => !self@.contains_key(*k),
        },
    { unimplemented!() }

    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures match r {
            Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
            None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@,
        },
    { unimplemented!() }

    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.insert(k, v),
            match r {
                Some(x) => old(self)@.contains_key(k) && x == old(self)@[k],
                None => !old(self)@.contains_key(k),
            },
    { unimplemented!() }

    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.remove(*k),
            match r {
                Some(x) => old(self)@.contains_key(*k) && x == old(self)@[*k],
                None => !old(self)@.contains_key(*k),
            },
    { unimplemented!() }

    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool)
        ensures r == self@.contains_key(*k),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self@ == Map::<K, V>::empty()),
    { unimplemented!() }
}

// ---- std::collections::HashSet ----
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { m: std::collections::HashSet<K> }

impl<K> HashSet<K> {
    pub uninterp spec fn view(&self) -> Set<K>;

    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Set::<K>::empty(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool)
        ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: bool)
        ensures final(self)@ == old(self)@.remove(*k), r == old(self)@.contains(*k),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn contains(&self, k: &K) -> (r: bool)
        ensures r == self@.contains(*k),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self@ =~= Set::<K>::empty()), r == (forall|x: K| !self@.contains(x)),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self)
        ensures r@ == self@,
    { unimplemented!() }
}

// ---- iteration over a slice: `for x in &vec`, `for x in slice` ----
pub trait VxIntoIter: Sized {
    type It;
    fn vx_into_iter(self) -> Self::It;
}

pub struct SliceIter<'a, T> { pub s: &'a [T], pub i: usize }

impl<'a, T> SliceIter<'a, T> {
    pub fn next(&mut self) -> (r: Option<&'a T>)
        requires old(self).i <= old(self).s@.len(),
        ensures
            final(self).s == old(self).s,
            old(self).i < old(self).s@.len() ==> final(self).i == old(self).i + 1 && r == Some(&old(self).s@[old(self).i as int]),
            old(self).i >= old(self).s@.len() ==> final(self).i == old(self).i && r is None,
    {
        if self.i < self.s.len() {
            let k = self.i;
            self.i = k + 1;
            Some(&self.s[k])
        } else {
            None
        }
    }
}

impl<'a, T> VxIntoIter for &'a [T] {
    type It = SliceIter<'a, T>;
    fn vx_into_iter(self) -> (r: SliceIter<'a, T>)
        ensures r.s == self, r.i == 0,
    { SliceIter { s: self, i: 0 } }
}

impl<'a, T> VxIntoIter for &'a Vec<T> {
    type It = SliceIter<'a, T>;
    fn vx_into_iter(self) -> (r: SliceIter<'a, T>)
        ensures r.s@ == self@, r.i == 0,
    { SliceIter { s: self.as_slice(), i: 0 } }
}

pub proof fn lemma_take_step<A>(s: Seq<A>, i: int)
    requires 0 <= i < s.len(),
    ensures
        s.take(i + 1) == s.take(i).push(s[i]),
        forall|x: A| s.take(i + 1).contains(x) == (s.take(i).contains(x) || x == s[i]),
{
    assert(s.take(i + 1) =~= s.take(i).push(s[i]));
    assert forall|x: A| s.take(i + 1).contains(x) == (s.take(i).contains(x) || x == s[i]) by {
        if s.take(i + 1).contains(x) {
            let k = s.take(i + 1).index_of(x);
            if k < i { assert(s.take(i)[k] == x); }
        }
        if s.take(i).contains(x) {
            let k = s.take(i).index_of(x);
            assert(s.take(i + 1)[k] == x);
        }
        assert(s.take(i + 1)[i] == s[i]);
    }
}


// ---- std functions without a specification in vstd ----
pub assume_specification<T>[ Option::<T>::or ](a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == (if a is Some { a } else { b }),
;
pub assume_specification<T>[ Option::<T>::xor ](a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == (if a is Some && b is None { a } else if a is None && b is Some { b } else { None::<T> }),
;
pub assume_specification<T, U>[ Option::<T>::and::<U> ](a: Option<T>, b: Option<U>) -> (r: Option<U>)
    ensures r == (if a is Some { b } else { None::<U> }),
;
pub assume_specification<T, U>[ Option::<T>::zip::<U> ](a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>)
    ensures r == (match (a, b) { (Some(x), Some(y)) => Some((x, y)), _ => None }),
;
pub assume_specification<T>[ Option::<T>::replace ](a: &mut Option<T>, v: T) -> (r: Option<T>)
    ensures r == *old(a), *final(a) == Some(v),
;
pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None }),
;
pub assume_specification<T>[ Option::<Option<T>>::flatten ](a: Option<Option<T>>) -> (r: Option<T>)
    ensures r == (match a { Some(x) => x, None => None }),
;
pub assume_specification<T, E, U>[ Result::<T, E>::and::<U> ](a: Result<T, E>, b: Result<U, E>) -> (r: Result<U, E>)
    ensures match a { Ok(_) => r == b, Err(e) => r == Err::<U, E>(e) },
;
pub assume_specification<T, E, F>[ Result::<T, E>::or::<F> ](a: Result<T, E>, b: Result<T, F>) -> (r: Result<T, F>)
    ensures match a { Ok(v) => r == Ok::<T, F>(v), Err(_) => r == b },
;
pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](a: Result<T, E>, d: T) -> (r: T)
    ensures r == (match a { Ok(v) => v, Err(_) => d }),
;
pub assume_specification<T>[ bool::then_some::<T> ](b: bool, v: T) -> (r: Option<T>)
    ensures r == (if b { Some(v) } else { None }),
;
/// `mem::take` leaves the empty value
pub trait VxEmpty: Sized { spec fn vx_empty(&self) -> bool; }
impl<T> VxEmpty for Vec<T> { open spec fn vx_empty(&self) -> bool { self@ == Seq::<T>::empty() } }
impl<T> VxEmpty for Option<T> { open spec fn vx_empty(&self) -> bool { *self is None } }
impl<T> VxEmpty for HashSet<T> { open spec fn vx_empty(&self) -> bool { self@ == Set::<T>::empty() } }
impl<K, V> VxEmpty for HashMap<K, V> { open spec fn vx_empty(&self) -> bool { self@ == Map::<K, V>::empty() } }
#[verifier::external_body]
pub fn vx_take<T: VxEmpty>(x: &mut T) -> (r: T)
    ensures r == *old(x), final(x).vx_empty(),
{ unimplemented!() }
pub assume_specification<T>[ core::mem::replace::<T> ](dest: &mut T, src: T) -> (r: T)
    ensures *final(dest) == src, r == *old(dest),
;
} // verus!
