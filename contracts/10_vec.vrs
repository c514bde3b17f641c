@@module raw_mem
@@text
// Ghost model of the memory a vector owns, and the assumed contracts of the
// raw memory operations over it.
use vstd::prelude::*;
use vstd::raw_ptr::*;
use vstd::std_specs::cmp::*;
use core::alloc::Layout;
broadcast use vstd::raw_ptr::group_raw_ptr_axioms;
pub open spec fn sz<T>() -> int { vstd::layout::size_of::<T>() as int }
/// the pointer `k` elements further on, wrapping around the address space
pub open spec fn off<T>(p: *mut T, k: int) -> *mut T {
    ptr_mut_from_data(PtrData::<T> { addr: ((p@.addr + k * sz::<T>()) % 0x1_0000_0000_0000_0000) as usize, provenance: p@.provenance, metadata: p@.metadata })
}
pub proof fn lemma_off<T>(p: *mut T, a: int, b: int)
    ensures off(off(p, a), b) == off(p, a + b), off(p, 0) == p,
{
    let s = sz::<T>();
    let m = 0x1_0000_0000_0000_0000int;
    let q = off(p, a);
    let x = p@.addr + a * s;
    assert(q@.addr == x % m);
    assert((x % m + b * s) % m == (p@.addr + (a + b) * s) % m) by {
        assert((a + b) * s == a * s + b * s) by (nonlinear_arith);
        vstd::arithmetic::div_mod::lemma_add_mod_noop(x, b * s, m);
        vstd::arithmetic::div_mod::lemma_add_mod_noop(x % m, b * s, m);
        vstd::arithmetic::div_mod::lemma_mod_twice(x, m);
    }
    assert(0 * s == 0);
    assert(off(p, 0)@ == p@);
}
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExLayout(Layout);
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExLayoutError(core::alloc::LayoutError);
pub uninterp spec fn lsize(l: Layout) -> int;
/// the layout of `n` elements
pub uninterp spec fn lay<T>(n: int) -> Layout;
pub assume_specification<T> [<*const T>::wrapping_offset] (p: *const T, k: isize) -> (r: *const T)
    ensures r == off(p as *mut T, k as int) as *const T;
pub assume_specification<T> [<*const T>::wrapping_add] (p: *const T, k: usize) -> (r: *const T)
    ensures r == off(p as *mut T, k as int) as *const T;
pub assume_specification<T> [<*mut T>::wrapping_add] (p: *mut T, k: usize) -> (r: *mut T)
    ensures r == off(p, k as int);
pub assume_specification<T> [<*mut T>::wrapping_offset] (p: *mut T, k: isize) -> (r: *mut T)
    ensures r == off(p, k as int);
pub assume_specification<T: core::marker::PointeeSized> [<*mut T>::is_null] (p: *mut T) -> (r: bool) ensures r == (p@.addr == 0);
pub assume_specification [core::alloc::Layout::size] (p: &Layout) -> (r: usize) ensures r == lsize(*p);
pub assume_specification<T> [core::alloc::Layout::array::<T>] (n: usize) -> (r: Result<Layout, core::alloc::LayoutError>)
    ensures r is Ok <==> n * sz::<T>() <= isize::MAX,
        r is Ok ==> r->Ok_0 == lay::<T>(n as int) && lsize(r->Ok_0) == n * sz::<T>();
pub assume_specification [usize::checked_next_power_of_two] (n: usize) -> (r: Option<usize>)
    ensures r is Some ==> r.unwrap() >= n;
pub assume_specification<T: Ord> [core::cmp::max::<T>] (a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == if a.cmp_spec(&b) == core::cmp::Ordering::Greater { a } else { b };

/// the live allocations owned by one vector: each is a sequence of slots, empty or holding an element
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub tracked struct Mem<T> { p: core::marker::PhantomData<T> }
impl<T> View for Mem<T> {
    type V = IMap<*mut T, Seq<Option<T>>>;
    uninterp spec fn view(&self) -> IMap<*mut T, Seq<Option<T>>>;
}
pub type Blocks<T> = IMap<*mut T, Seq<Option<T>>>;
/// `p` is slot `k` of block `b`
pub open spec fn at<T>(m: Blocks<T>, p: *mut T, b: *mut T, k: int) -> bool {
    m.dom().contains(b) && 0 <= k < m[b].len() && p == off(b, k)
}
pub open spec fn at_some<T>(m: Blocks<T>, p: *mut T, b: *mut T, k: int) -> bool {
    at(m, p, b, k) && m[b][k] is Some
}
pub open spec fn put<T>(m: Blocks<T>, b: *mut T, k: int, o: Option<T>) -> Blocks<T> {
    m.insert(b, m[b].update(k, o))
}
pub open spec fn grown<T>(s: Seq<Option<T>>, n: int) -> Seq<Option<T>> {
    Seq::new(n as nat, |i: int| if i < s.len() { s[i] } else { None })
}
#[verifier::external_body]
pub fn vp_no_mem<T>() -> (r: Tracked<Mem<T>>)
    ensures r@@ == IMap::<*mut T, Seq<Option<T>>>::empty(),
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_alloc<T>(l: Layout, Tracked(m): Tracked<&mut Mem<T>>) -> (r: *mut u8)
    requires lsize(l) > 0, exists|n: int| n > 0 && l == #[trigger] lay::<T>(n),
    ensures r@.addr == 0 ==> final(m)@ == old(m)@,
        forall|n: int| r@.addr != 0 && l == #[trigger] lay::<T>(n) ==> !old(m)@.dom().contains(r as *mut T)
            && final(m)@ == old(m)@.insert(r as *mut T, Seq::new(n as nat, |i: int| None::<T>)),
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_realloc<T>(p: *mut u8, l: Layout, size: usize, Tracked(m): Tracked<&mut Mem<T>>) -> (r: *mut u8)
    requires size > 0,
        old(m)@.dom().contains(p as *mut T), l == lay::<T>(old(m)@[p as *mut T].len() as int),
        // an element in the part cut off would be lost
        exists|n: int| size == #[trigger] lsize(lay::<T>(n)) && forall|i: int| n <= i < old(m)@[p as *mut T].len() ==> (#[trigger] old(m)@[p as *mut T][i]) is None,
    ensures r@.addr == 0 ==> final(m)@ == old(m)@,
        forall|n: int| r@.addr != 0 && size == #[trigger] lsize(lay::<T>(n)) ==>
            final(m)@ == old(m)@.remove(p as *mut T).insert(r as *mut T, grown(old(m)@[p as *mut T], n)),
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_dealloc<T>(p: *mut u8, l: Layout, Tracked(m): Tracked<&mut Mem<T>>)
    requires old(m)@.dom().contains(p as *mut T), l == lay::<T>(old(m)@[p as *mut T].len() as int),
        // an element left would be lost
        forall|i: int| 0 <= i < old(m)@[p as *mut T].len() ==> (#[trigger] old(m)@[p as *mut T][i]) is None,
    ensures final(m)@ == old(m)@.remove(p as *mut T),
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_alloc_failed(l: Layout)
    ensures false,
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_write<T>(p: *mut T, t: T, Tracked(m): Tracked<&mut Mem<T>>)
    requires exists|b: *mut T, k: int| #[trigger] at(old(m)@, p, b, k) && old(m)@[b][k] is None,
    ensures forall|b: *mut T, k: int| #[trigger] at(old(m)@, p, b, k) ==> final(m)@ == put(old(m)@, b, k, Some(t)),
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_read<T>(p: *const T, Tracked(m): Tracked<&mut Mem<T>>) -> (r: T)
    requires exists|b: *mut T, k: int| #[trigger] at_some(old(m)@, p as *mut T, b, k),
    ensures forall|b: *mut T, k: int| #[trigger] at_some(old(m)@, p as *mut T, b, k) ==> r == old(m)@[b][k].unwrap()
            && final(m)@ == put(old(m)@, b, k, None),
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_ref<'a, T>(p: *const T, Tracked(m): Tracked<&'a Mem<T>>) -> (r: &'a T)
    requires exists|b: *mut T, k: int| #[trigger] at_some(m@, p as *mut T, b, k),
    ensures forall|b: *mut T, k: int| #[trigger] at_some(m@, p as *mut T, b, k) ==> *r == m@[b][k].unwrap(),
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_mut<'a, T>(p: *mut T, Tracked(m): Tracked<&'a mut Mem<T>>) -> (r: &'a mut T)
    requires exists|b: *mut T, k: int| #[trigger] at_some(old(m)@, p, b, k),
    ensures forall|b: *mut T, k: int| #[trigger] at_some(old(m)@, p, b, k) ==> *r == old(m)@[b][k].unwrap()
            && final(m)@ == put(old(m)@, b, k, Some(*final(r))),
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_mut2<'a, T>(p: *mut T, q: *mut T, Tracked(m): Tracked<&'a mut Mem<T>>) -> (r: (&'a mut T, &'a mut T))
    requires exists|b: *mut T, k: int, c: *mut T, l: int| #[trigger] at_some(old(m)@, p, b, k) && #[trigger] at_some(old(m)@, q, c, l) && (b != c || k != l),
    ensures forall|b: *mut T, k: int, c: *mut T, l: int| #[trigger] at_some(old(m)@, p, b, k) && #[trigger] at_some(old(m)@, q, c, l) ==>
        *r.0 == old(m)@[b][k].unwrap() && *r.1 == old(m)@[c][l].unwrap()
            && final(m)@ == put(put(old(m)@, b, k, Some(*final(r.0))), c, l, Some(*final(r.1))),
{ unimplemented!() }
/// bitwise copy between two allocations: the elements are owned by the destination afterwards
pub open spec fn moved<T>(m: Blocks<T>, b: *mut T, i: int, c: *mut T, j: int, n: int) -> Blocks<T> {
    m.insert(b, Seq::new(m[b].len(), |x: int| if i <= x < i + n { None } else { m[b][x] }))
        .insert(c, Seq::new(m[c].len(), |x: int| if j <= x < j + n { m[b][x - j + i] } else { m[c][x] }))
}
pub open spec fn movable<T>(m: Blocks<T>, b: *mut T, i: int, c: *mut T, j: int, n: int) -> bool {
    &&& b != c
    &&& i + n <= m[b].len()
    &&& j + n <= m[c].len()
    // an element overwritten would be lost
    &&& forall|x: int| j <= x < j + n ==> (#[trigger] m[c][x]) is None
}
#[verifier::external_body]
pub fn vp_copy<T>(p: *const T, q: *mut T, n: usize, Tracked(m): Tracked<&mut Mem<T>>)
    requires exists|b: *mut T, i: int, c: *mut T, j: int| #[trigger] at(old(m)@, p as *mut T, b, i) && #[trigger] at(old(m)@, q, c, j)
        && movable(old(m)@, b, i, c, j, n as int),
    ensures forall|b: *mut T, i: int, c: *mut T, j: int| #[trigger] at(old(m)@, p as *mut T, b, i) && #[trigger] at(old(m)@, q, c, j) ==>
        final(m)@ == moved(old(m)@, b, i, c, j, n as int),
{ unimplemented!() }
/// `expect` with its panic, which does not return
pub trait VpExpect<T>: Sized {
    spec fn got(self) -> Option<T>;
    fn vp_expect(self) -> (r: T) ensures self.got() == Some(r);
}
impl<T> VpExpect<T> for Option<T> {
    open spec fn got(self) -> Option<T> { self }
    fn vp_expect(self) -> (r: T) { match self { Some(x) => x, None => crate::vp_panic() } }
}
impl<T, E> VpExpect<T> for Result<T, E> {
    open spec fn got(self) -> Option<T> { match self { Ok(x) => Some(x), Err(_) => None } }
    fn vp_expect(self) -> (r: T) { match self { Ok(x) => x, Err(_) => crate::vp_panic() } }
}

@@end
@@module nonzero_inx_vec arena/nonzero_inx_vec.rs
@@type NonZeroInxVec ghost=mem:Tracked<Mem<T>>
#[verifier::reject_recursive_types(T)]
@@text
broadcast use ptr_axioms;
use crate::raw_mem::*;
use core::alloc::Layout;
use core::ptr;
use core::cmp::max;
impl<T> NonZeroInxVec<T> {
    pub open spec fn blk(self) -> Blocks<T> { self.mem@@ }
    /// the start of the allocation
    pub open spec fn base(self) -> *mut T { off(self._ptr as *mut T, 1) }
    /// exactly one allocation of the recorded size, or none, whose first slots hold the elements
    pub closed spec fn wf(self) -> bool {
        &&& sz::<T>() > 0
        &&& self._len <= self._cap
        &&& self._cap * sz::<T>() <= isize::MAX
        &&& self._cap == 0 ==> self.released()
        &&& self._cap > 0 ==> self.blk() == IMap::<*mut T, Seq<Option<T>>>::empty().insert(self.base(), self.blk()[self.base()])
            && self.blk()[self.base()].len() == self._cap
            && (forall|k: int| 0 <= k < self._cap ==> ((#[trigger] self.blk()[self.base()][k]) is Some <==> k < self._len))
    }
    /// owns no allocation
    pub open spec fn released(self) -> bool {
        self.blk() == IMap::<*mut T, Seq<Option<T>>>::empty()
    }
}
impl<T> View for NonZeroInxVec<T> {
    type V = Seq<T>;
    closed spec fn view(&self) -> Seq<T> { Seq::new(self._len as nat, |i: int| self.blk()[self.base()][i].unwrap()) }
}
pub open spec fn vec_cap<T>(v: NonZeroInxVec<T>) -> int { v._cap as int }

pub proof fn lemma_cap<T>(v: NonZeroInxVec<T>)
    requires v.wf(),
    ensures v@.len() <= v._cap <= isize::MAX,
{
    assert(v._cap <= v._cap * sz::<T>()) by (nonlinear_arith) requires sz::<T>() > 0, v._cap >= 0;
}
pub broadcast proof fn ax_vec_len<T>(v: NonZeroInxVec<T>)
    requires v.wf(),
    ensures #[trigger] v@.len() <= isize::MAX,
{
    lemma_cap(v);
}
pub broadcast proof fn ax_vec_cap<T>(v: NonZeroInxVec<T>)
    requires v.wf(),
    ensures v@.len() <= #[trigger] vec_cap(v) <= isize::MAX,
{
    lemma_cap(v);
}
pub proof fn lemma_one<T>(v: NonZeroInxVec<T>, k: int)
    requires v.wf(), 0 <= k < v._len,
    ensures at_some(v.blk(), off(v._ptr as *mut T, k + 1), v.base(), k),
        forall|f: NonZeroInxVec<T>, x: T| f._ptr == v._ptr && f._cap == v._cap && f._len == v._len
            && #[trigger] f.blk() == #[trigger] put(v.blk(), v.base(), k, Some(x)) ==> f.wf() && f@ == v@.update(k, x),
{
    lemma_off(v._ptr as *mut T, 1, k);
    assert forall|f: NonZeroInxVec<T>, x: T| f._ptr == v._ptr && f._cap == v._cap && f._len == v._len
        && #[trigger] f.blk() == #[trigger] put(v.blk(), v.base(), k, Some(x)) implies f.wf() && f@ == v@.update(k, x) by {
        assert(f@ =~= v@.update(k, x));
        assert(f.blk() =~= IMap::<*mut T, Seq<Option<T>>>::empty().insert(f.base(), f.blk()[f.base()]));
    }
}
pub proof fn lemma_two<T>(v: NonZeroInxVec<T>, k: int, l: int)
    requires v.wf(), 0 <= k < v._len, 0 <= l < v._len, k != l,
    ensures at_some(v.blk(), off(v._ptr as *mut T, k + 1), v.base(), k), at_some(v.blk(), off(v._ptr as *mut T, l + 1), v.base(), l),
        forall|f: NonZeroInxVec<T>, x: T, y: T| f._ptr == v._ptr && f._cap == v._cap && f._len == v._len
            && #[trigger] f.blk() == #[trigger] put(put(v.blk(), v.base(), k, Some(x)), v.base(), l, Some(y)) ==> f.wf() && f@ == v@.update(k, x).update(l, y),
{
    lemma_one(v, k);
    lemma_one(v, l);
    assert forall|f: NonZeroInxVec<T>, x: T, y: T| f._ptr == v._ptr && f._cap == v._cap && f._len == v._len
        && #[trigger] f.blk() == #[trigger] put(put(v.blk(), v.base(), k, Some(x)), v.base(), l, Some(y)) implies f.wf() && f@ == v@.update(k, x).update(l, y) by {
        assert(f@ =~= v@.update(k, x).update(l, y));
        assert(f.blk() =~= IMap::<*mut T, Seq<Option<T>>>::empty().insert(f.base(), f.blk()[f.base()]));
    }
}
@@fn NonZeroInxVec::new props=V01 raw
    ensures r.wf(), r@ == Seq::<T>::empty(), vec_cap(r) == 0,
@end
    proof { assert(__r@ =~= Seq::empty()); }
@@fn NonZeroInxVec::set_allocation_ptr props=V01 raw
    ensures final(self).base() == new_ptr as *mut T, final(self)._cap == old(self)._cap, final(self)._len == old(self)._len,
        final(self).mem == old(self).mem,
@start
    proof { lemma_off(new_ptr as *mut T, -1, 1); lemma_off(new_ptr as *mut T, 0, 0); }
@@fn NonZeroInxVec::allocation_ptr props=V01 raw
    ensures r == self.base() as *const T,
@@fn NonZeroInxVec::allocation_ptr_mut props=V01 raw
    ensures r == self.base(),
@@fn NonZeroInxVec::nonzero_index_ptr props=V01 raw
    ensures r == self._ptr,
@@fn NonZeroInxVec::nonzero_index_ptr_mut props=V01 raw
    ensures r == self._ptr as *mut T,
@@fn NonZeroInxVec::set_capacity props=V01 raw
    ensures *final(self) == (NonZeroInxVec { _cap: new_capacity, ..*old(self) }),
@@fn NonZeroInxVec::capacity props=V01 raw
    ensures r == vec_cap(*self), r == self._cap,
@@fn NonZeroInxVec::set_len props=V01 raw
    ensures *final(self) == (NonZeroInxVec { _len: new_len, ..*old(self) }),
@@fn NonZeroInxVec::len props=V01 raw
    ensures r == self@.len(), r == self._len,
@@fn NonZeroInxVec::layout props=V01 raw
    requires self._cap * sz::<T>() <= isize::MAX,
    ensures r == lay::<T>(self._cap as int),
@@fn NonZeroInxVec::is_empty props=V01 raw
    ensures r == (self@.len() == 0), r == (self._len == 0),
@@fn NonZeroInxVec::reserve props=V01 raw
    requires old(self).wf(),
    ensures final(self).wf(), final(self)@ == old(self)@, vec_cap(*final(self)) >= old(self)@.len() + additional,
@at array 0
    proof {
        assert(new_cap > self._cap);
        assert(new_cap * sz::<T>() > 0) by (nonlinear_arith) requires new_cap > 0, sz::<T>() > 0;
    }
@end
    proof {
        assert(self@ =~= old(self)@);
        assert(self.blk() =~= IMap::<*mut T, Seq<Option<T>>>::empty().insert(self.base(), self.blk()[self.base()]));
    }
@@fn NonZeroInxVec::clear props=V01 raw
    requires old(self).wf(),
    ensures final(self).wf(), final(self)@ == Seq::<T>::empty(), vec_cap(*final(self)) == vec_cap(*old(self)),
@loop 0
    invariant self.wf(), self._cap == old(self)._cap,
    ensures self._len == 0,
    decreases self._len,
@end
    proof { assert(self@ =~= Seq::empty()); }
@@fn NonZeroInxVec::clear_and_shrink props=V01 raw
    requires old(self).wf(),
    ensures final(self).wf(), final(self)@ == Seq::<T>::empty(), vec_cap(*final(self)) == 0, final(self).released(),
@at clear 0
    proof { assert(self._len == 0) by { assert(self@.len() == 0); } }
@end
    proof { assert(self.blk() =~= IMap::empty()); assert(self@ =~= Seq::empty()); }
@@fn NonZeroInxVec::push props=V01 raw
    requires old(self).wf(),
    ensures final(self).wf(), final(self)@ == old(self)@.push(t),
@pre wrapping_add 0
    proof {
        lemma_cap(*self);
        lemma_off(self._ptr as *mut T, 1, self._len as int);
        assert(self._len < self._cap);
        assert(at(self.blk(), off(self._ptr as *mut T, self._len + 1), self.base(), self._len as int));
    }
@end
    proof {
        assert(self@ =~= old(self)@.push(t));
        assert(self.blk() =~= IMap::<*mut T, Seq<Option<T>>>::empty().insert(self.base(), self.blk()[self.base()]));
    }
@@fn NonZeroInxVec::pop props=V01 raw
    requires old(self).wf(),
    ensures final(self).wf(), vec_cap(*final(self)) == vec_cap(*old(self)),
        final(self)@.len() == final(self)._len, old(self)@.len() == old(self)._len,
        old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
        old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last(),
@start
    proof { if self._len > 0 { lemma_one(*self, self._len - 1); } }
@end
    proof {
        if old(self)._len > 0 {
            assert(self@ =~= old(self)@.drop_last());
            assert(self.blk() =~= IMap::<*mut T, Seq<Option<T>>>::empty().insert(self.base(), self.blk()[self.base()]));
        }
    }
@@fn NonZeroInxVec::get props=V01 raw
    requires self.wf(),
    ensures match r {
            Some(x) => 1 <= inx@ <= self@.len() && *x == self@[inx@ - 1],
            None => inx@ > self@.len(),
        },
@start
    proof { if inx@ <= self._len { lemma_one(*self, inx@ - 1); } }
@@fn NonZeroInxVec::get_mut props=V01 raw
    requires old(self).wf(),
    ensures final(self).wf(),
        match r {
            Some(x) => 1 <= inx@ <= old(self)@.len() && *x == old(self)@[inx@ - 1]
                && final(self)@ == old(self)@.update(inx@ - 1, *final(x)),
            None => inx@ > old(self)@.len() && *final(self) == *old(self),
        },
@start
    proof { if inx@ <= self._len { lemma_one(*self, inx@ - 1); } }
@@fn NonZeroInxVec::get2_mut props=V01 raw
    requires old(self).wf(),
    ensures final(self).wf(),
        match r {
            Some((x, y)) => 1 <= inx0@ <= old(self)@.len() && 1 <= inx1@ <= old(self)@.len() && inx0@ != inx1@
                && *x == old(self)@[inx0@ - 1] && *y == old(self)@[inx1@ - 1]
                && final(self)@ == old(self)@.update(inx0@ - 1, *final(x)).update(inx1@ - 1, *final(y)),
            None => (inx0@ == inx1@ || inx0@ > old(self)@.len() || inx1@ > old(self)@.len())
                && *final(self) == *old(self),
        },
@start
    proof { if inx0@ <= self._len && inx1@ <= self._len && inx0@ != inx1@ { lemma_two(*self, inx0@ - 1, inx1@ - 1); } }
@@fn NonZeroInxVec::shrink_to_fit props=V01 raw
    requires old(self).wf(),
    ensures final(self).wf(), final(self)@ == old(self)@, vec_cap(*final(self)) == old(self)@.len(),
@start
    proof { lemma_cap(*self); lemma_off(self.base(), 0, 0); }
@pre array 0
    proof {
        assert(0 < new_cap < self._cap);
        assert(0 < new_cap * sz::<T>() <= self._cap * sz::<T>()) by (nonlinear_arith) requires 0 < new_cap <= self._cap, sz::<T>() > 0;
    }
@pre vp_copy 0
    proof {
        lemma_off(new_ptr, 0, 0);
        assert(at(self.blk(), self.base(), self.base(), 0));
        assert(at(self.blk(), new_ptr, new_ptr, 0));
        assert(movable(self.blk(), self.base(), 0, new_ptr, 0, self._len as int));
    }
@end
    proof {
        assert(self@ =~= old(self)@);
        assert(self._cap > 0 ==> self.blk() =~= IMap::<*mut T, Seq<Option<T>>>::empty().insert(self.base(), self.blk()[self.base()]));
    }
@@fn NonZeroInxVec as Drop::drop name=vp_drop props=V01 raw
    requires old(self).wf(),
    ensures final(self).released(),
@@text
#[verifier::external_body]
pub exec const NZONE: NonZeroUsize
    ensures NZONE@ == 1,
{ NonZeroUsize::MIN }
@@fn nzusize_unchecked props=V01
    requires x != 0,
    ensures r@ == x,
@@type NonZeroUsizeIterator
@@type IntoNonZeroUsizeIterator
@@text
impl NonZeroUsizeIterator {
    pub open spec fn wf(self) -> bool {
        self.end_inclusive is Some ==> self.current@ <= self.end_inclusive.unwrap()@ <= isize::MAX
    }
    /// number of remaining items
    pub open spec fn left(self) -> int {
        if self.end_inclusive is Some { self.end_inclusive.unwrap()@ - self.current@ + 1 } else { 0 }
    }
}
@@fn NonZeroUsizeIterator as Iterator::next props=A05,A06,A07,V01
    requires old(self).wf(),
    ensures final(self).wf(),
        old(self).left() == 0 ==> r is None && *final(self) == *old(self),
        old(self).left() > 0 ==> r == Some(old(self).current)
            && final(self).left() == old(self).left() - 1
            && final(self).current@ == old(self).current@ + 1,
@@fn IntoNonZeroUsizeIterator as IntoIterator::into_iter props=A05,A06,A07,V01
    ensures r == self.0,
@@fn nzusize_iter props=A05,A06,A07,V01
    requires end_inclusive <= isize::MAX,
    ensures r.0.wf(), r.0.current == start,
        r.0.left() == (if start@ > end_inclusive { 0int } else { end_inclusive - start@ + 1 }),
@@fn NonZeroInxVec::nziter props=A05,A06,A07,V01
    requires self.wf(),
    ensures r.0.wf(), r.0.current@ == 1, r.0.left() == self@.len(),
@start
    proof { broadcast use ax_vec_len; assert(self@.len() <= isize::MAX); }
@@fn NonZeroInxVec as Clone::clone props=A07,V01 name=clone
    requires self.wf(),
    ensures r.wf(), r@.len() == self@.len(),
        forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> cloned(self@[i], r@[i]),
@loop 0
    invariant
        self.wf(), res.wf(), $it.wf(), $it.current@ + $it.left() == self@.len() + 1, res@.len() == $it.current@ - 1,
        forall|i: int| #![trigger res@[i]] 0 <= i < res@.len() ==> cloned(self@[i], res@[i]),
    ensures $it.left() == 0,
    decreases $it.left(),
@@end
