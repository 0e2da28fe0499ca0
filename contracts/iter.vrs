verus! {
pub use core::cmp::Ordering;
// ---- std iterators and slices, as far as the extracted code names them ---------------------------
/// a finite iterator
pub trait VpIterator<T>: Sized {
    spec fn rest(&self) -> Seq<T>;
    fn next(&mut self) -> (r: Option<T>)
        ensures
            (*old(self)).rest().len() == 0 ==> r is None && (*final(self)).rest() == (*old(self)).rest(),
            (*old(self)).rest().len() > 0 ==> r == Some((*old(self)).rest()[0]) && (*final(self)).rest() == (*old(self)).rest().drop_first();
    fn peekable(self) -> (r: VpIter<T>)
        ensures r.vrest() == self.rest();
}
/// any of the std adapters: what it still yields
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VpIter<T> { v: Vec<T> }
impl<T> VpIter<T> {
    pub uninterp spec fn vrest(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<&T>)
        ensures final(self).rest() == old(self).rest(), r is None == (old(self).rest().len() == 0), r is Some ==> *r->Some_0 == old(self).rest()[0],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: VpIter<U>)
        requires forall|x: T| #[trigger] f.requires((x,)),
        ensures r.rest().len() == self.rest().len(), forall|i: int| 0 <= i < self.rest().len() ==> f.ensures((self.rest()[i],), #[trigger] r.rest()[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: VpIter<T>)
        requires forall|x: &T| #[trigger] f.requires((x,)),
        ensures forall|p: spec_fn(T) -> bool| (forall|x: T, b: bool| #[trigger] f.ensures((&x,), b) ==> b == p(x)) ==> r.rest() == #[trigger] self.rest().filter(p),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn chain(self, o: VpIter<T>) -> (r: VpIter<T>)
        ensures r.rest() == self.rest() + o.rest(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn zip<U>(self, o: VpIter<U>) -> (r: VpIter<(T, U)>)
        ensures r.rest().len() == min_int(self.rest().len() as int, o.rest().len() as int), forall|i: int| 0 <= i < r.rest().len() ==> #[trigger] r.rest()[i] == (self.rest()[i], o.rest()[i]),
    { unimplemented!() }
}
impl<T> VpIterator<T> for VpIter<T> {
    open spec fn rest(&self) -> Seq<T> { self.vrest() }
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<T>) { unimplemented!() }
    fn peekable(self) -> (r: VpIter<T>) { self }
}
/// `iter::once`
#[verifier::external_body]
pub fn once<T>(x: T) -> (r: VpIter<T>)
    ensures r.rest() == seq![x],
{ unimplemented!() }

/// `v.iter().find(f)`: the first element for which `f` answers true
#[verifier::external_body]
pub fn vp_find<T, F: Fn(&T) -> bool>(v: &Vec<T>, f: F) -> (r: Option<&T>)
    requires forall|i: int| 0 <= i < v@.len() ==> #[trigger] f.requires((&v@[i],)),
    ensures
        r is None ==> forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> f.ensures((&v@[i],), false),
        r is Some ==> exists|k: int| 0 <= k < v@.len() && *r->Some_0 == #[trigger] v@[k] && f.ensures((&v@[k],), true)
            && forall|i: int| #![trigger v@[i]] 0 <= i < k ==> f.ensures((&v@[i],), false),
{ v.iter().find(|x| f(x)) }
#[verifier::external_body]
pub fn vp_find_mut<T, F: Fn(&T) -> bool>(v: &mut Vec<T>, f: F) -> (r: Option<&mut T>)
    requires forall|i: int| 0 <= i < old(v)@.len() ==> #[trigger] f.requires((&old(v)@[i],)),
    ensures
        match r {
            None => final(v)@ == old(v)@ && forall|i: int| #![trigger old(v)@[i]] 0 <= i < old(v)@.len() ==> f.ensures((&old(v)@[i],), false),
            Some(x) => exists|k: int| 0 <= k < old(v)@.len() && *x == #[trigger] old(v)@[k] && f.ensures((&old(v)@[k],), true)
                && final(v)@ == old(v)@.update(k, *final(x))
                && forall|i: int| #![trigger old(v)@[i]] 0 <= i < k ==> f.ensures((&old(v)@[i],), false),
        },
{ v.iter_mut().find(|x| f(x)) }
#[verifier::external_body]
pub fn vp_position<T, F: Fn(&T) -> bool>(v: &Vec<T>, f: F) -> (r: Option<usize>)
    requires forall|i: int| 0 <= i < v@.len() ==> #[trigger] f.requires((&v@[i],)),
    ensures
        r is None ==> forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> f.ensures((&v@[i],), false),
        r is Some ==> r->Some_0 < v@.len() && f.ensures((&v@[r->Some_0 as int],), true)
            && forall|i: int| #![trigger v@[i]] 0 <= i < r->Some_0 ==> f.ensures((&v@[i],), false),
{ v.iter().position(|x| f(x)) }
/// `g` says Less for a first part of `v`, Greater for a last part, Equal in between
#[verifier::opaque]
pub open spec fn searchable<T>(v: Seq<T>, g: spec_fn(T) -> Ordering) -> bool {
    forall|i: int, j: int| 0 <= i < j < v.len() ==>
        (g(#[trigger] v[j]) == Ordering::Less ==> g(#[trigger] v[i]) == Ordering::Less)
        && (g(v[i]) == Ordering::Greater ==> g(v[j]) == Ordering::Greater)
}
#[verifier::opaque]
pub open spec fn searched<T>(v: Seq<T>, g: spec_fn(T) -> Ordering, r: Result<usize, usize>) -> bool {
    match r {
        Ok(p) => p < v.len() && g(v[p as int]) == Ordering::Equal,
        Err(p) => p <= v.len() && (forall|i: int| 0 <= i < p ==> g(#[trigger] v[i]) == Ordering::Less)
            && (forall|i: int| p <= i < v.len() ==> g(#[trigger] v[i]) == Ordering::Greater),
    }
}
#[verifier::external_body]
pub fn vp_binary_search_by<T, F: Fn(&T) -> Ordering>(v: &Vec<T>, f: F) -> (r: Result<usize, usize>)
    requires forall|i: int| 0 <= i < v@.len() ==> #[trigger] f.requires((&v@[i],)),
    ensures forall|g: spec_fn(T) -> Ordering| #[trigger] searchable(v@, g) && (forall|x: T, o: Ordering| #[trigger] f.ensures((&x,), o) ==> o == g(x)) ==> searched(v@, g, r),
{ v.binary_search_by(|x| f(x)) }

/// a total order on the elements of `v`
#[verifier::opaque]
pub open spec fn total_on<T>(v: Seq<T>, g: spec_fn(T, T) -> Ordering) -> bool {
    &&& forall|x: T, y: T| v.contains(x) && v.contains(y) ==> (#[trigger] g(x, y) == Ordering::Less <==> g(y, x) == Ordering::Greater) && (g(x, y) == Ordering::Equal <==> g(y, x) == Ordering::Equal)
    &&& forall|x: T| v.contains(x) ==> #[trigger] g(x, x) == Ordering::Equal
    &&& forall|x: T, y: T, z: T| v.contains(x) && v.contains(y) && v.contains(z) && #[trigger] g(x, y) != Ordering::Greater && #[trigger] g(y, z) != Ordering::Greater
            ==> g(x, z) != Ordering::Greater && (g(x, z) == Ordering::Equal ==> g(x, y) == Ordering::Equal && g(y, z) == Ordering::Equal)
}
pub open spec fn sorted_by<T>(v: Seq<T>, g: spec_fn(T, T) -> Ordering) -> bool {
    forall|i: int, j: int| 0 <= i < j < v.len() ==> g(#[trigger] v[i], #[trigger] v[j]) != Ordering::Greater
}
pub open spec fn compares<T, F: Fn(&T, &T) -> Ordering>(f: F, g: spec_fn(T, T) -> Ordering) -> bool {
    forall|x: T, y: T, o: Ordering| #[trigger] f.ensures((&x, &y), o) ==> o == g(x, y)
}
/// `v.sort_by(f)`, `v.sort_unstable_by(f)`: these may panic where the order is not total
#[verifier::external_body]
pub fn vp_sort_by<T, F: Fn(&T, &T) -> Ordering>(v: &mut Vec<T>, f: F)
    requires
        forall|x: T, y: T| #[trigger] f.requires((&x, &y)),
        exists|g: spec_fn(T, T) -> Ordering| #[trigger] total_on(old(v)@, g) && compares(f, g),
    ensures
        final(v)@.to_multiset() == old(v)@.to_multiset(),
        forall|g: spec_fn(T, T) -> Ordering| #[trigger] total_on(old(v)@, g) && compares(f, g) ==> sorted_by(final(v)@, g),
{ v.sort_by(|x, y| f(x, y)) }

/// `v.iter().last()`
#[verifier::external_body]
pub fn vp_last<T>(v: &Vec<T>) -> (r: Option<&T>)
    ensures r is Some == (v@.len() > 0), r is Some ==> *r->Some_0 == v@.last(),
{ v.last() }

/// the pieces of `s` between the separators
pub open spec fn split(s: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases s.len(),
{
    if s.len() == 0 { seq![Seq::<char>::empty()] } else {
        let r = split(s.drop_last(), c);
        if s.last() == c { r.push(Seq::empty()) } else { r.update(r.len() - 1, r.last().push(s.last())) }
    }
}
pub open spec fn strs(s: Seq<&str>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
#[verifier::external_body]
pub fn vp_split<'a>(s: &'a str, c: char) -> (r: VpIter<&'a str>)
    ensures strs(r.rest()) == split(s@, c),
{ unimplemented!() }
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
#[verifier::external_body]
pub fn vp_bytes(s: &str) -> (r: VpIter<u8>)
    ensures r.rest() == utf8(s@),
{ unimplemented!() }

pub trait VpStr {
    spec fn sv(&self) -> Seq<char>;
}
impl VpStr for String { open spec fn sv(&self) -> Seq<char> { self@ } }
impl VpStr for str { open spec fn sv(&self) -> Seq<char> { self@ } }
#[verifier::external_body]
pub fn vp_same<A: VpStr + ?Sized, B: VpStr + ?Sized>(a: &A, b: &B) -> (r: bool)
    ensures r == (a.sv() == b.sv()),
{ unimplemented!() }

/// `a.iter().zip(b.iter())`, collected
#[verifier::external_body]
pub fn vp_zip<'a, T, U>(a: &'a [T], b: &'a [U]) -> (r: Vec<(&'a T, &'a U)>)
    ensures
        r@.len() == if a@.len() < b@.len() { a@.len() } else { b@.len() },
        forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).0 == a@[i] && *r@[i].1 == b@[i],
{ a.iter().zip(b.iter()).collect() }
/// `a.chain(b)`, collected
#[verifier::external_body]
pub fn vp_chain<T>(a: Vec<T>, b: Vec<T>) -> (r: Vec<T>)
    ensures r@ == a@ + b@,
{ a.into_iter().chain(b).collect() }
} // verus!
