//@ include shim/base.vx
//@ include shim/mapiter.vx
//@ include shim/kindcore.vx
// ---- C04: the name manager ----
use std::rc::Rc;
use std::num::NonZeroUsize;
verus! {
//@ type HashSet<StringRc> => NameSet
//@ type *const __T => Addr
//@ rule must_use(__e) => __e
//@ rule __m[&__k] => *vx_at(&__m, &__k)
//@ rule __e.is_some_and(|__p| __b) => match __e { Some(__p) => __b, None => false }
//@ rule __n.bytes().all(|__p| __b) => vx_all_bytes(__n, vx_raw!(|__p: u8| -> (vx_b: bool) ensures vx_b == (48 <= __p <= 57) { __b }))
//@ rule __b.is_ascii_digit() => vx_is_digit(__b)
//@ rule __e.strip_prefix(__c) => vx_strip(__e, __c)
//@ rule &__n[1..] => vx_rest(__n)
//@ rule vx_new_string() => vx_new_string()
//@ rule self.next_id += 1 => vx_inc(&mut self.next_id)
//@ rule 0.. => vx_count()
//@ path Default::default => VxDefault::vx_default

// ---- identities ----
/// The address of a live object.
#[derive(Clone, Copy)]
pub struct Addr { pub a: usize }
pub trait Located { spec fn addr(&self) -> Addr; }
#[verifier::external_body]
pub fn vx_addr<T: Located>(t: &T) -> (r: Addr) ensures r == t.addr(), { unimplemented!() }

/// A function, block or value of the program being printed; distinct objects have
/// distinct addresses (their ghost identity).
#[verifier::external_body]
pub struct FunctionData { x: usize }
#[verifier::external_body]
pub struct BasicBlockData { x: usize }
#[verifier::external_body]
pub struct ValueData { x: usize }
impl Located for FunctionData { uninterp spec fn addr(&self) -> Addr; }
impl Located for BasicBlockData { uninterp spec fn addr(&self) -> Addr; }
impl Located for ValueData { uninterp spec fn addr(&self) -> Addr; }
impl FunctionData {
    pub uninterp spec fn named(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn name(&self) -> (r: &str) ensures r@ == self.named(), { unimplemented!() }
}
impl BasicBlockData {
    pub uninterp spec fn named(&self) -> Option<Seq<char>>;
    #[verifier::external_body]
    pub fn name(&self) -> (r: &Option<String>) ensures optname(*r) == self.named(), { unimplemented!() }
}
impl ValueData {
    pub uninterp spec fn named(&self) -> Option<Seq<char>>;
    pub uninterp spec fn what(&self) -> ValueKind;
    #[verifier::external_body]
    pub fn name(&self) -> (r: &Option<String>) ensures optname(*r) == self.named(), { unimplemented!() }
    #[verifier::external_body]
    pub fn kind(&self) -> (r: &ValueKind) ensures *r == self.what(), { unimplemented!() }
}
pub open spec fn optname(n: Option<String>) -> Option<Seq<char>> {
    match n { Some(s) => Some(s@), None => None }
}

// ---- strings ----
pub uninterp spec fn dec(n: int) -> Seq<char>;
pub trait VxShow { spec fn show(&self) -> Seq<char>; }
impl VxShow for usize { open spec fn show(&self) -> Seq<char> { dec(*self as int) } }
impl VxShow for i32 { open spec fn show(&self) -> Seq<char> { dec(*self as int) } }
impl VxShow for String { open spec fn show(&self) -> Seq<char> { self@ } }
impl VxShow for str { open spec fn show(&self) -> Seq<char> { self@ } }
impl<T: VxShow + ?Sized> VxShow for &T { open spec fn show(&self) -> Seq<char> { (**self).show() } }
pub trait VxSink {
    fn vx_ch(&mut self, c: char);
    fn vx_put<T: VxShow>(&mut self, t: &T);
}
impl VxSink for String {
    #[verifier::external_body]
    fn vx_ch(&mut self, c: char) ensures final(self)@ == old(self)@.push(c), { unimplemented!() }
    #[verifier::external_body]
    fn vx_put<T: VxShow>(&mut self, t: &T) ensures final(self)@ == old(self)@ + t.show(), old(self)@.len() == 0 ==> final(self)@ == t.show(), { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_new_string() -> (r: String) ensures r@ == Seq::<char>::empty(), { unimplemented!() }
#[verifier::external_body]
pub fn vx_to_string(s: &str) -> (r: String) ensures r@ == s@, { unimplemented!() }
#[verifier::external_body]
pub fn vx_strip<'a>(s: &'a str, c: char) -> (r: Option<&'a str>)
    ensures match r { Some(t) => s@.len() > 0 && s@[0] == c && t@ == s@.skip(1), None => s@.len() == 0 || s@[0] != c },
{ unimplemented!() }
/// `&s[1..]`
#[verifier::external_body]
pub fn vx_rest<'a>(s: &'a str) -> (r: &'a str)
    requires s@.len() > 0, (s@[0] as u32) < 128,
    ensures r@ == s@.skip(1),
{ unimplemented!() }
pub open spec fn digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn all_digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> digit(#[trigger] s[i]) }
/// every byte satisfies a predicate that holds of the ASCII digits only
#[verifier::external_body]
pub fn vx_all_bytes<F: Fn(u8) -> bool>(s: &str, f: F) -> (r: bool)
    requires
        forall|b: u8| #[trigger] f.requires((b,)),
        forall|b: u8, x: bool| #[trigger] f.ensures((b,), x) ==> x == (48 <= b <= 57),
    ensures r == all_digits(s@),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_is_digit(b: u8) -> (r: bool) ensures r == (48 <= b <= 57), { unimplemented!() }

/// bytes of a character in UTF-8
pub open spec fn ulen1(c: char) -> nat {
    let u = c as u32; if u < 0x80 { 1 } else if u < 0x800 { 2 } else if u < 0x10000 { 3 } else { 4 }
}
pub open spec fn ulen(s: Seq<char>) -> nat
    decreases s.len(),
{ if s.len() == 0 { 0 } else { ulen(s.drop_last()) + ulen1(s.last()) } }
/// the position `n` is the end of the first `k` characters
pub open spec fn at_char(s: Seq<char>, n: int, k: int) -> bool { 0 <= k <= s.len() && ulen(s.take(k)) == n }
pub open spec fn boundary(s: Seq<char>, n: int) -> bool { exists|k: int| at_char(s, n, k) }
#[verifier::external_body]
pub fn vx_blen(s: &String) -> (r: usize) ensures r == ulen(s@), { unimplemented!() }
#[verifier::external_body]
pub fn vx_is_boundary(s: &String, n: usize) -> (r: bool) ensures r == boundary(s@, n as int), { unimplemented!() }
#[verifier::external_body]
pub fn vx_truncate(s: &mut String, n: usize)
    requires boundary(old(s)@, n as int) || n > ulen(old(s)@),
    ensures
        n > ulen(old(s)@) ==> final(s)@ == old(s)@,
        forall|k: int| #[trigger] at_char(old(s)@, n as int, k) ==> final(s)@ == old(s)@.take(k),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == if a < b { a } else { b }, { unimplemented!() }

/// `x += 1` where the counter is assumed not to run out (2^64 names)
#[verifier::external_body]
pub fn vx_inc(x: &mut usize) ensures *final(x) == *old(x) + 1, { unimplemented!() }
/// `0..` where the counter is assumed not to run out
pub struct Count { pub n: i32 }
#[verifier::external_body]
pub fn vx_count() -> (r: Count) { unimplemented!() }
impl VxIntoIter for Count { type It = Count; fn vx_into_iter(self) -> (r: Count) { self } }
impl Count {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<i32>) ensures r is Some, { unimplemented!() }
}

//@ item back::generator::StringRc
//@ item back::generator::ScopeKind #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ item back::generator::Prefix
//@ item back::generator::NameManager

/// `HashSet<StringRc>`, looked up by the string
#[verifier::external_body]
pub struct NameSet { x: usize }
impl NameSet {
    pub uninterp spec fn view(&self) -> Set<Seq<char>>;
    #[verifier::external_body]
    pub fn contains(&self, k: &String) -> (r: bool) ensures r == self@.contains(k@), { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &String) -> (r: Option<&StringRc>)
        ensures match r { Some(s) => self@.contains(k@) && s.0@ == k@, None => !self@.contains(k@) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: StringRc) -> (r: bool)
        ensures final(self)@ == old(self)@.insert(k.0@), r == !old(self)@.contains(k.0@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &Rc<String>) -> (r: bool)
        ensures final(self)@ == old(self)@.remove(k@), r == old(self)@.contains(k@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Set::<Seq<char>>::empty(), { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_at<'a, V>(m: &'a HashMap<Addr, V>, k: &Addr) -> (r: &'a V)
    requires m@.contains_key(*k),
    ensures *r == m@[*k],
{ unimplemented!() }
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn values<'a>(&'a self) -> (r: ValuesIter<'a, K, V>)
        ensures r.map() == self@, r.pos() == 0, map_order(self@).no_duplicates(),
            forall|k: K| map_order(self@).contains(k) == #[trigger] self@.contains_key(k),
    { unimplemented!() }
}
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::external_body]
pub struct ValuesIter<'a, K, V> { m: &'a HashMap<K, V> }
impl<'a, K, V> VxIntoIter for ValuesIter<'a, K, V> {
    type It = Self;
    fn vx_into_iter(self) -> (r: Self) ensures r == self, { self }
}
impl<'a, K, V> ValuesIter<'a, K, V> {
    pub uninterp spec fn map(&self) -> Map<K, V>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a V>)
        ensures
            final(self).map() == old(self).map(),
            old(self).pos() < map_order(old(self).map()).len() ==> final(self).pos() == old(self).pos() + 1
                && match r { Some(v) => *v == old(self).map()[map_order(old(self).map())[old(self).pos() as int]], None => false },
            old(self).pos() >= map_order(old(self).map()).len() ==> final(self).pos() == old(self).pos() && r is None,
    { unimplemented!() }
}

pub trait VxDefault: Sized { spec fn dflt(r: Self) -> bool; fn vx_default() -> (r: Self) ensures Self::dflt(r); }
impl VxDefault for usize { open spec fn dflt(r: usize) -> bool { r == 0 } fn vx_default() -> (r: usize) { 0 } }
impl VxDefault for bool { open spec fn dflt(r: bool) -> bool { !r } fn vx_default() -> (r: bool) { false } }
impl VxDefault for NameSet {
    open spec fn dflt(r: NameSet) -> bool { r@ == Set::<Seq<char>>::empty() }
    #[verifier::external_body]
    fn vx_default() -> (r: NameSet) { unimplemented!() }
}
impl<K, V> VxDefault for HashMap<K, V> {
    open spec fn dflt(r: HashMap<K, V>) -> bool { r@ == Map::<K, V>::empty() }
    #[verifier::external_body]
    fn vx_default() -> (r: HashMap<K, V>) { unimplemented!() }
}
impl VxDefault for ScopeKind {
    open spec fn dflt(r: ScopeKind) -> bool { r == ScopeKind::Global }
//@ fn back::generator::ScopeKind@Default::default as=vx_default nopub
//@ end
}
impl VxDefault for Prefix {
    open spec fn dflt(r: Prefix) -> bool { r is Default }
//@ fn back::generator::Prefix@Default::default as=vx_default nopub
//@ end
}

// ---- what names look like ----
/// an explicit name, as the construction of entities enforces it
pub open spec fn explicit(n: Seq<char>) -> bool { n.len() > 1 && (n[0] == '@' || n[0] == '%') }
pub open spec fn limit(p: Prefix) -> Option<nat> {
    match p { Prefix::Custom { named, temp, max_len: Some(m) } => Some(m@ as nat), _ => None }
}
/// The prefixed form of an explicit name.
pub open spec fn long_name(p: Prefix, n: Seq<char>) -> Seq<char> {
    match p {
        Prefix::Default => n,
        Prefix::Custom { named, temp, max_len } => (if n[0] == '@' { named@ } else { temp@ }) + n.skip(1),
    }
}
/// the longest prefix of `s` of at most `m` bytes has `k` characters
pub open spec fn cut(s: Seq<char>, m: nat, k: int) -> bool {
    0 <= k <= s.len() && ulen(s.take(k)) <= m && (k == s.len() || ulen(s.take(k + 1)) > m)
}
pub open spec fn kept(p: Prefix, n: Seq<char>) -> int {
    match limit(p) { Some(m) => choose|k: int| cut(long_name(p, n), m, k), None => long_name(p, n).len() as int }
}
pub open spec fn prefixed(p: Prefix, n: Seq<char>) -> Seq<char> { long_name(p, n).take(kept(p, n)) }
pub open spec fn temporary(p: Prefix, id: int) -> Seq<char> {
    match p { Prefix::Default => seq!['%'] + dec(id), Prefix::Custom { named, temp, max_len } => temp@ + dec(id) }
}
pub open spec fn numeric(n: Seq<char>) -> bool { n.len() > 0 && n[0] == '%' && all_digits(n.skip(1)) }

pub proof fn lemma_ulen_take(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len(),
    ensures ulen(s.take(i)) + (j - i) <= ulen(s.take(j)),
    decreases j,
{
    if i < j {
        assert(s.take(j).drop_last() =~= s.take(j - 1));
        lemma_ulen_take(s, i, j - 1);
    }
}
/// There is exactly one longest prefix.
pub proof fn lemma_cut(s: Seq<char>, m: nat, k: int)
    requires cut(s, m, k),
    ensures forall|j: int| cut(s, m, j) ==> j == k,
{
    assert forall|j: int| cut(s, m, j) implies j == k by {
        if j < k { lemma_ulen_take(s, j + 1, k); }
        if k < j { lemma_ulen_take(s, k + 1, j); }
    }
}
pub proof fn lemma_end(s: Seq<char>)
    ensures at_char(s, ulen(s) as int, s.len() as int), at_char(s, 0, 0),
{ assert(s.take(s.len() as int) =~= s); assert(s.take(0) =~= Seq::<char>::empty()); }

// ---- the state ----
/// which set of names a closure selects
pub enum Pick { Global, Block }
pub open spec fn slot(nm: NameManager, k: Pick) -> NameSet {
    match k { Pick::Global => nm.global_names, Pick::Block => if nm.unified { nm.global_names } else { nm.bb_names } }
}
pub open spec fn put(nm: NameManager, k: Pick, s: NameSet) -> NameManager {
    match k {
        Pick::Global => NameManager { global_names: s, ..nm },
        Pick::Block => if nm.unified { NameManager { global_names: s, ..nm } } else { NameManager { bb_names: s, ..nm } },
    }
}
pub open spec fn cache(nm: NameManager, g: bool) -> HashMap<Addr, Rc<String>> { if g { nm.global_vars } else { nm.values } }
pub open spec fn put_cache(nm: NameManager, g: bool, m: HashMap<Addr, Rc<String>>) -> NameManager {
    if g { NameManager { global_vars: m, ..nm } } else { NameManager { values: m, ..nm } }
}
pub type Names = Map<Addr, Rc<String>>;
pub open spec fn uniq(m: Names) -> bool {
    forall|a: Addr, b: Addr| #[trigger] m.contains_key(a) && #[trigger] m.contains_key(b) && m[a]@ == m[b]@ ==> a == b
}
pub open spec fn inset(m: Names, s: Set<Seq<char>>) -> bool { forall|a: Addr| #[trigger] m.contains_key(a) ==> s.contains(m[a]@) }
pub open spec fn apart(m: Names, n: Names) -> bool {
    forall|a: Addr, b: Addr| #[trigger] m.contains_key(a) && #[trigger] n.contains_key(b) ==> m[a]@ != n[b]@
}
pub open spec fn holds(m: Names, n: Seq<char>) -> bool { exists|a: Addr| #[trigger] m.contains_key(a) && m[a]@ == n }
impl NameManager {
    /// Names of functions and global values are pairwise distinct; within a function so are
    /// the names of everything visible in it, and those of its basic blocks.
    pub open spec fn wf(&self) -> bool {
        &&& uniq(self.funcs@) && uniq(self.global_vars@) && uniq(self.bbs@) && apart(self.funcs@, self.global_vars@)
        &&& inset(self.funcs@, self.global_names@) && inset(self.global_vars@, self.global_names@)
        &&& match self.cur_scope {
            ScopeKind::Global => self.bbs@ == Map::<Addr, Rc<String>>::empty() && self.bb_names@ == Set::<Seq<char>>::empty(),
            ScopeKind::Function => {
                &&& uniq(self.values@) && inset(self.values@, self.global_names@)
                &&& apart(self.values@, self.funcs@) && apart(self.values@, self.global_vars@)
                &&& if self.unified {
                    &&& inset(self.bbs@, self.global_names@)
                    &&& apart(self.bbs@, self.funcs@) && apart(self.bbs@, self.global_vars@) && apart(self.bbs@, self.values@)
                } else { inset(self.bbs@, self.bb_names@) }
            },
        }
    }
    /// nothing has been named yet
    pub open spec fn fresh(&self) -> bool {
        &&& self.cur_scope == ScopeKind::Global && self.prefix is Default && !self.unified
        &&& self.global_names@ == Set::<Seq<char>>::empty() && self.bb_names@ == Set::<Seq<char>>::empty()
        &&& self.funcs@ == Map::<Addr, Rc<String>>::empty() && self.global_vars@ == Map::<Addr, Rc<String>>::empty()
        &&& self.values@ == Map::<Addr, Rc<String>>::empty() && self.bbs@ == Map::<Addr, Rc<String>>::empty()
    }
    /// every name handed out so far is still the name of its entity
    pub open spec fn grown(&self, o: NameManager) -> bool {
        &&& self.cur_scope == o.cur_scope && self.prefix == o.prefix && self.unified == o.unified
        &&& o.funcs@.submap_of(self.funcs@) && o.global_vars@.submap_of(self.global_vars@)
        &&& o.values@.submap_of(self.values@) && o.bbs@.submap_of(self.bbs@)
        &&& o.global_names@.subset_of(self.global_names@)
    }
}
/// the closure selects the given set of names
#[verifier::prophetic]
pub open spec fn picks<F: for<'a> Fn(&'a mut NameManager) -> &'a mut NameSet>(f: F, k: Pick) -> bool {
    &&& forall|s: &mut NameManager| f.requires((s,))
    &&& forall|s: &mut NameManager, r: &mut NameSet| #[trigger] f.ensures((s,), r) ==> *r == slot(*s, k) && *final(s) == put(*s, k, *final(r))
}
#[verifier::prophetic]
pub open spec fn picks_cache<F: for<'a> Fn(&'a mut NameManager) -> &'a mut HashMap<Addr, Rc<String>>>(f: F, g: bool) -> bool {
    &&& forall|s: &mut NameManager| f.requires((s,))
    &&& forall|s: &mut NameManager, r: &mut HashMap<Addr, Rc<String>>| #[trigger] f.ensures((s,), r) ==> *r == cache(*s, g) && *final(s) == put_cache(*s, g, *final(r))
}
/// `r` is the name chosen for `n` (`None`: unnamed) when the names in `taken` are in use.
pub open spec fn form(p: Prefix, n: Option<Seq<char>>, taken: Set<Seq<char>>, r: Seq<char>) -> bool {
    match n {
        None => exists|id: int| r == #[trigger] temporary(p, id),
        Some(n) => if !taken.contains(prefixed(p, n)) { r == prefixed(p, n) }
            else if numeric(prefixed(p, n)) { exists|id: int| r == #[trigger] temporary(p, id) }
            else { exists|id: int| r == #[trigger] suffixed(prefixed(p, n), id) },
    }
}
pub open spec fn suffixed(n: Seq<char>, id: int) -> Seq<char> { n.push('_') + dec(id) }
/// the state after the name `r` has been taken for `n`
pub open spec fn issues(a: NameManager, b: NameManager, k: Pick, n: Option<Seq<char>>, r: Seq<char>) -> bool {
    &&& !slot(a, k)@.contains(r) && slot(b, k)@ == slot(a, k)@.insert(r)
    &&& b == (NameManager { next_id: b.next_id, ..put(a, k, slot(b, k)) }) && b.next_id >= a.next_id
    &&& form(a.prefix, n, slot(a, k)@, r)
}

pub open spec fn constant(k: ValueKind) -> bool {
    k is Integer || k is ZeroInit || k is Undef || k is Aggregate
}
/// `b` is `a` without the names of the first `i` entries of `m`
pub open spec fn removed(a: Set<Seq<char>>, b: Set<Seq<char>>, m: Names, i: int) -> bool {
    forall|n: Seq<char>| #[trigger] b.contains(n) == (a.contains(n) && !hit(m, n, i))
}
pub open spec fn hit(m: Names, n: Seq<char>, i: int) -> bool {
    exists|j: int| 0 <= j < i && j < map_order(m).len() && m[#[trigger] map_order(m)[j]]@ == n
}
pub proof fn lemma_hit(m: Names, n: Seq<char>, i: int)
    requires 0 < i <= map_order(m).len(),
    ensures hit(m, n, i) == (hit(m, n, i - 1) || m[map_order(m)[i - 1]]@ == n), !hit(m, n, 0),
{
    if hit(m, n, i) {
        let j = choose|j: int| 0 <= j < i && j < map_order(m).len() && m[#[trigger] map_order(m)[j]]@ == n;
        if j < i - 1 { assert(hit(m, n, i - 1)); }
    }
}
pub proof fn lemma_hit_all(m: Names, n: Seq<char>, i: int)
    requires i >= map_order(m).len(), forall|k: Addr| map_order(m).contains(k) == #[trigger] m.contains_key(k),
    ensures hit(m, n, i) == holds(m, n),
{
    if hit(m, n, i) {
        let j = choose|j: int| 0 <= j < i && j < map_order(m).len() && m[#[trigger] map_order(m)[j]]@ == n;
        assert(map_order(m).contains(map_order(m)[j]));
        assert(m.contains_key(map_order(m)[j]));
    }
    if holds(m, n) {
        let a = choose|a: Addr| #[trigger] m.contains_key(a) && m[a]@ == n;
        assert(map_order(m).contains(a));
        let j = map_order(m).index_of(a);
        assert(map_order(m)[j] == a && 0 <= j < i && m[map_order(m)[j]]@ == n);
    }
}

//@ fn back::generator::is_numeric_name
    ensures r == numeric(name@),
//@ end

impl ValueKind {
//@ fn ir::entities::ValueKind::is_const
    ensures r == constant(*self),
//@ end
//@ fn ir::entities::ValueKind::is_global_alloc
    ensures r == (*self is GlobalAlloc),
//@ end
}
impl StringRc {
//@ fn back::generator::StringRc::to_rc
    ensures r@ == self.0@,
//@ end
//@ fn back::generator::StringRc@From/String::from
    ensures r.0@ == s@,
//@ end
}

impl Prefix {
//@ fn back::generator::Prefix::name
//@ rule __e.into() => vx_to_string(__e)
//@ rule __n.len() => vx_blen(&__n)
//@ rule __n.is_char_boundary(__k) => vx_is_boundary(&__n, __k)
//@ rule __n.truncate(__k) => vx_truncate(&mut __n, __k)
//@ rule __a.min(__b) => vx_min(__a, __b)
    requires explicit(name@),
    ensures r@ == prefixed(*self, name@),
//@ entry
        let ghost n0 = name@;
//@ beforeloop 0
        proof {
            lemma_end(name@);
            assert forall|k: int| 0 <= k <= name@.len() && ulen(#[trigger] name@.take(k)) <= max_len@ implies ulen(name@.take(k)) <= len by {
                lemma_ulen_take(name@, k, name@.len() as int);
            }
        }
//@ loop 0
    invariant
        name@ == long_name(*self, n0), limit(*self) == Some(max_len@ as nat),
        len <= max_len@, len <= ulen(name@),
        forall|k: int| 0 <= k <= name@.len() && ulen(#[trigger] name@.take(k)) <= max_len@ ==> ulen(name@.take(k)) <= len,
    decreases len,
//@ body 0
        proof {
            lemma_end(name@);
            assert forall|k: int| 0 <= k <= name@.len() && ulen(#[trigger] name@.take(k)) <= max_len@ implies ulen(name@.take(k)) <= len - 1 by {
                assert(!at_char(name@, len as int, k));
            }
        }
//@ afterloop 0
        proof {
            let k = choose|k: int| at_char(name@, len as int, k);
            if k < name@.len() {
                lemma_ulen_take(name@, k, k + 1);
                assert(ulen(name@.take(k + 1)) > max_len@);
            }
            assert(cut(name@, max_len@ as nat, k));
            lemma_cut(name@, max_len@ as nat, k);
        }
//@ exit
        let ghost l0 = long_name(*self, n0);
        assert(l0.take(l0.len() as int) =~= l0);
        proof {
            // a name that fits is kept
            if let Some(m) = limit(*self) {
                if ulen(l0) <= m { assert(cut(l0, m, l0.len() as int)); lemma_cut(l0, m, l0.len() as int); }
            }
        }
//@ end

//@ fn back::generator::Prefix::temp_name
    ensures r@ == temporary(*self, id as int),
//@ exit
        assert(vx_ret@ =~= temporary(*self, id as int));
//@ end
}

impl NameManager {
//@ fn back::generator::NameManager@Default::default
    ensures r.fresh(), r.wf(),
//@ end
//@ fn back::generator::NameManager::new
//@ rule Self::default() => NameManager::default()
    ensures r.fresh(), r.wf(),
//@ end
//@ fn back::generator::NameManager::set_prefix
    ensures *final(self) == (NameManager { prefix: prefix, ..*old(self) }),
//@ end
//@ fn back::generator::NameManager::set_unified
    ensures *final(self) == (NameManager { unified: unified, ..*old(self) }),
        old(self).wf() && old(self).cur_scope == ScopeKind::Global ==> final(self).wf(),
//@ end
//@ fn back::generator::NameManager::enter_func_scope
    requires old(self).wf(), old(self).cur_scope == ScopeKind::Global,
    ensures
        final(self).wf(), final(self).cur_scope == ScopeKind::Function,
        final(self).values@ == Map::<Addr, Rc<String>>::empty(), final(self).bbs@ == Map::<Addr, Rc<String>>::empty(),
        final(self).funcs@ == old(self).funcs@, final(self).global_vars@ == old(self).global_vars@,
        final(self).global_names == old(self).global_names, final(self).prefix == old(self).prefix, final(self).unified == old(self).unified,
//@ end
//@ fn back::generator::NameManager::exit_func_scope
    requires old(self).wf(), old(self).cur_scope == ScopeKind::Function,
    ensures
        final(self).wf(), final(self).cur_scope == ScopeKind::Global,
        final(self).funcs@ == old(self).funcs@, final(self).global_vars@ == old(self).global_vars@,
        final(self).prefix == old(self).prefix, final(self).unified == old(self).unified,
        // exactly the names of the function's own values and blocks become free again
        forall|n: Seq<char>| #[trigger] final(self).global_names@.contains(n) ==
            (old(self).global_names@.contains(n) && !holds(old(self).values@, n) && !(old(self).unified && holds(old(self).bbs@, n))),
//@ entry
        let ghost o = *self;
//@ beforeloop 0
        let ghost p0 = *self;
//@ loop 0
    invariant
        o == *old(self), o.wf(), o.cur_scope == ScopeKind::Function, o.unified,
        *self == (NameManager { global_names: self.global_names, ..p0 }),
        vx_it0.map() == o.bbs@, vx_it0.pos() <= map_order(o.bbs@).len(),
        forall|k: Addr| map_order(o.bbs@).contains(k) == #[trigger] o.bbs@.contains_key(k),
        removed(p0.global_names@, self.global_names@, o.bbs@, vx_it0.pos() as int),
    ensures
        vx_it0.pos() >= map_order(o.bbs@).len(),
    decreases map_order(o.bbs@).len() - vx_it0.pos(),
//@ bodyend 0
        proof { assert forall|n: Seq<char>| #[trigger] self.global_names@.contains(n) == (p0.global_names@.contains(n) && !hit(o.bbs@, n, vx_it0.pos() as int)) by { lemma_hit(o.bbs@, n, vx_it0.pos() as int); } }
//@ afterloop 0
        proof { assert forall|n: Seq<char>| #[trigger] self.global_names@.contains(n) == (p0.global_names@.contains(n) && !holds(o.bbs@, n)) by { lemma_hit_all(o.bbs@, n, vx_it0.pos() as int); } }
//@ beforeloop 1
        let ghost p1 = *self;
//@ loop 1
    invariant
        o == *old(self), o.wf(), o.cur_scope == ScopeKind::Function,
        *self == (NameManager { global_names: self.global_names, ..p1 }),
        vx_it1.map() == o.values@, vx_it1.pos() <= map_order(o.values@).len(),
        forall|k: Addr| map_order(o.values@).contains(k) == #[trigger] o.values@.contains_key(k),
        removed(p1.global_names@, self.global_names@, o.values@, vx_it1.pos() as int),
    ensures
        vx_it1.pos() >= map_order(o.values@).len(),
    decreases map_order(o.values@).len() - vx_it1.pos(),
//@ bodyend 1
        proof { assert forall|n: Seq<char>| #[trigger] self.global_names@.contains(n) == (p1.global_names@.contains(n) && !hit(o.values@, n, vx_it1.pos() as int)) by { lemma_hit(o.values@, n, vx_it1.pos() as int); } }
//@ afterloop 1
        proof { assert forall|n: Seq<char>| #[trigger] self.global_names@.contains(n) == (p1.global_names@.contains(n) && !holds(o.values@, n)) by { lemma_hit_all(o.values@, n, vx_it1.pos() as int); } }
//@ end
//@ fn back::generator::NameManager::next_name
//@ rule __s.next_name_str(__a, __b) => __s.next_name_str(__a, __b, Ghost(vx_k))
//@ rule __e.into() => StringRc::from(__e)
//@ sig
    #[verifier::exec_allows_no_decreases_clause]
    fn next_name<F>(&mut self, name: &Option<String>, name_set: F, Ghost(vx_k): Ghost<Pick>) -> (r: Rc<String>)
        where F: for<'a> Fn(&'a mut NameManager) -> &'a mut NameSet
    requires picks(name_set, vx_k), optname(*name) is Some ==> explicit(optname(*name)->0),
    ensures issues(*old(self), *final(self), vx_k, optname(*name), r@),
//@ entry
        let ghost o = *self;
//@ loop 0
    invariant
        o == *old(self), picks(name_set, vx_k), self.next_id >= o.next_id,
        *self == (NameManager { next_id: self.next_id, ..o }), optname(*name) is None,
//@ end
//@ fn back::generator::NameManager::next_name_str
//@ rule __s.next_name(__a, __b) => __s.next_name(__a, __b, Ghost(vx_k))
//@ rule __e.into() => StringRc::from(__e)
//@ sig
    #[verifier::exec_allows_no_decreases_clause]
    #[verifier::loop_isolation(false)]
    #[verifier::allow_complex_invariants]
    fn next_name_str<F>(&mut self, name: &str, name_set: F, Ghost(vx_k): Ghost<Pick>) -> (r: Rc<String>)
        where F: for<'a> Fn(&'a mut NameManager) -> &'a mut NameSet
    requires picks(name_set, vx_k), explicit(name@),
    ensures issues(*old(self), *final(self), vx_k, Some(name@), r@),
//@ entry
        let ghost o = *self; let ghost n0 = name@;
//@ loop 0
    invariant
        *names == slot(o, vx_k), !numeric(name@), names@.contains(name@), name@ == prefixed(o.prefix, n0),
    ensures false,
//@ body 0
        assert(suffixed(name@, id as int) == name@.push('_') + dec(id as int));
//@ end
//@ fn back::generator::NameManager::value_name_impl
//@ rule __s.next_name(__a, |__p| __b) => __s.next_name(__a, vx_raw!(|__p: &mut NameManager| -> (vx_r: &mut NameSet) ensures *vx_r == slot(*old(__p), Pick::Global), *final(__p) == put(*old(__p), Pick::Global, *final(vx_r)) { __b }), Ghost(Pick::Global))
//@ sig
    fn value_name_impl<F>(&mut self, value: &ValueData, value_set: F, Ghost(vx_g): Ghost<bool>) -> (r: Rc<String>)
        where F: for<'a> Fn(&'a mut NameManager) -> &'a mut HashMap<Addr, Rc<String>>
    requires
        picks_cache(value_set, vx_g), value.named() is Some ==> explicit(value.named()->0),
        old(self).wf(), vx_g || old(self).cur_scope == ScopeKind::Function,
    ensures
        final(self).wf(), final(self).grown(*old(self)),
        cache(*final(self), vx_g)@.contains_key(value.addr()), cache(*final(self), vx_g)@[value.addr()]@ == r@,
        cache(*old(self), vx_g)@.contains_key(value.addr()) ==> *final(self) == *old(self),
        !cache(*old(self), vx_g)@.contains_key(value.addr()) ==>
            form(old(self).prefix, value.named(), old(self).global_names@, r@) && !old(self).global_names@.contains(r@),
//@ end
//@ fn back::generator::NameManager::func_name
//@ rule __s.next_name(__a, |__p| __b) => __s.next_name(__a, vx_raw!(|__p: &mut NameManager| -> (vx_r: &mut NameSet) ensures *vx_r == slot(*old(__p), Pick::Global), *final(__p) == put(*old(__p), Pick::Global, *final(vx_r)) { __b }), Ghost(Pick::Global))
//@ rule __s.next_name_str(__a, |__p| __b) => __s.next_name_str(__a, vx_raw!(|__p: &mut NameManager| -> (vx_r: &mut NameSet) ensures *vx_r == slot(*old(__p), Pick::Global), *final(__p) == put(*old(__p), Pick::Global, *final(vx_r)) { __b }), Ghost(Pick::Global))
    requires old(self).wf(), explicit(func.named()),
    ensures
        final(self).wf(), final(self).grown(*old(self)),
        final(self).funcs@.contains_key(func.addr()), final(self).funcs@[func.addr()]@ == r@,
        old(self).funcs@.contains_key(func.addr()) ==> *final(self) == *old(self),
        !old(self).funcs@.contains_key(func.addr()) ==> form(old(self).prefix, Some(func.named()), old(self).global_names@, r@)
            && !old(self).global_names@.contains(r@),
//@ end
//@ fn back::generator::NameManager::bb_name
//@ rule __s.next_name(__a, |__p| __b) => __s.next_name(__a, vx_raw!(|__p: &mut NameManager| -> (vx_r: &mut NameSet) ensures *vx_r == slot(*old(__p), Pick::Block), *final(__p) == put(*old(__p), Pick::Block, *final(vx_r)) { __b }), Ghost(Pick::Block))
//@ rule __s.next_name_str(__a, |__p| __b) => __s.next_name_str(__a, vx_raw!(|__p: &mut NameManager| -> (vx_r: &mut NameSet) ensures *vx_r == slot(*old(__p), Pick::Block), *final(__p) == put(*old(__p), Pick::Block, *final(vx_r)) { __b }), Ghost(Pick::Block))
    requires old(self).wf(), old(self).cur_scope == ScopeKind::Function, bb.named() is Some ==> explicit(bb.named()->0),
    ensures
        final(self).wf(), final(self).grown(*old(self)),
        final(self).bbs@.contains_key(bb.addr()), final(self).bbs@[bb.addr()]@ == r@,
        old(self).bbs@.contains_key(bb.addr()) ==> *final(self) == *old(self),
        !old(self).bbs@.contains_key(bb.addr()) ==> form(old(self).prefix, bb.named(), slot(*old(self), Pick::Block)@, r@)
            && !slot(*old(self), Pick::Block)@.contains(r@),
//@ end
//@ fn back::generator::NameManager::value_name
//@ rule __s.value_name_impl(__a, |__p| __b) => __s.value_name_impl(__a, vx_raw!(|__p: &mut NameManager| -> (vx_r: &mut HashMap<Addr, Rc<String>>) ensures *vx_r == cache(*old(__p), value.what() is GlobalAlloc), *final(__p) == put_cache(*old(__p), value.what() is GlobalAlloc, *final(vx_r)) { __b }), vx_raw!(Ghost(value.what() is GlobalAlloc)))
    requires
        old(self).wf(), value.named() is Some ==> explicit(value.named()->0), !constant(value.what()),
        value.what() is GlobalAlloc || old(self).cur_scope == ScopeKind::Function,
    ensures
        final(self).wf(), final(self).grown(*old(self)),
        cache(*final(self), value.what() is GlobalAlloc)@.contains_key(value.addr()),
        cache(*final(self), value.what() is GlobalAlloc)@[value.addr()]@ == r@,
        cache(*old(self), value.what() is GlobalAlloc)@.contains_key(value.addr()) ==> *final(self) == *old(self),
        !cache(*old(self), value.what() is GlobalAlloc)@.contains_key(value.addr()) ==>
            form(old(self).prefix, value.named(), old(self).global_names@, r@) && !old(self).global_names@.contains(r@),
//@ end
//@ fn back::generator::NameManager::temp_value_name
//@ rule __s.next_name(__a, |__p| __b) => __s.next_name(__a, vx_raw!(|__p: &mut NameManager| -> (vx_r: &mut NameSet) ensures *vx_r == slot(*old(__p), Pick::Global), *final(__p) == put(*old(__p), Pick::Global, *final(vx_r)) { __b }), Ghost(Pick::Global))
//@ rule __s.next_name_str(__a, |__p| __b) => __s.next_name_str(__a, vx_raw!(|__p: &mut NameManager| -> (vx_r: &mut NameSet) ensures *vx_r == slot(*old(__p), Pick::Global), *final(__p) == put(*old(__p), Pick::Global, *final(vx_r)) { __b }), Ghost(Pick::Global))
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).grown(*old(self)), !old(self).global_names@.contains(r@), final(self).global_names@.contains(r@),
        form(old(self).prefix, None, old(self).global_names@, r@),
        final(self).funcs@ == old(self).funcs@, final(self).global_vars@ == old(self).global_vars@,
        final(self).values@ == old(self).values@, final(self).bbs@ == old(self).bbs@,
//@ end
}

// ---- one run of a generator ----
//@ type Result<__T> => Result<__T, IoError>
#[verifier::external_body]
pub struct IoError { x: usize }
#[verifier::external_body]
pub struct Program { x: usize }
pub trait Write: Sized {}
/// A visitor is arbitrary code that names entities through the manager it is given: names
/// are only meaningful within one program, so it must be given a fresh one.
pub trait Visitor<W>: Sized {
    type Output;
    fn visit(&mut self, w: &mut W, nm: &mut NameManager, program: &Program) -> (r: Result<Self::Output, IoError>)
        requires old(nm).fresh(), old(nm).wf();
}
//@ item back::generator::Generator
impl<W: Write, V: Visitor<W>> Generator<W, V> {
//@ fn back::generator::Generator::with_visitor
    ensures r.name_man.fresh(), r.writer == writer, r.visitor == visitor,
//@ end
//@ fn back::generator::Generator::generate_on
//@ end
}
}
fn main() {}
