@@module any_iter arena/arena_iterators.rs
@@text
/// assumed of the user's iterator: it gives a finite sequence of items, one by one
pub trait Iterator: Sized {
    type Item;
    spec fn rest(self) -> Seq<Self::Item>;
    fn next(&mut self) -> (r: Option<Self::Item>)
        ensures match r {
            Some(x) => old(self).rest().len() > 0 && x == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
        };
}
pub trait IntoIterator: Sized {
    type Item;
    type IntoIter: Iterator<Item = Self::Item>;
    spec fn items(self) -> Seq<Self::Item>;
    fn into_iter(self) -> (r: Self::IntoIter)
        ensures r.rest() == self.items();
}
@@module from_iter arena/arena_iterators.rs
@@text
use crate::any_iter::{Iterator, IntoIterator};
broadcast use {ptr_axioms, ax_vec_len, ax_vec_cap, arena_lemmas};
@@text props=A02,A03
/// `ps` are distinct pointers, under which the arena has the elements `s`
pub open spec fn holds<P: Ptr, T>(a: Arena<P, T>, ps: Seq<P>, s: Seq<T>) -> bool {
    &&& ps.len() == s.len() == a.len
    &&& forall|i: int| #![trigger ps[i]] 0 <= i < ps.len() ==> a.has(ps[i]) && a.val(ps[i]) == s[i]
    &&& forall|i: int, j: int| #![trigger ps[i], ps[j]] 0 <= i < j < ps.len() ==> ps[i].sinx().ival() != ps[j].sinx().ival()
}
/// `t` is put in under the pointer `p`
pub open spec fn put<P: Ptr, T>(o: Arena<P, T>, n: Arena<P, T>, p: P, t: T) -> bool {
    &&& o.at(p.sinx().ival()) is None && n.at(p.sinx().ival()) == Some((p.sgen(), t))
    &&& n.same_except(o, p.sinx().ival())
}
@@fn Arena as FromIterator::from_iter name=vp_from_iter props=A02,A03
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
    requires iter.items().len() <= <P::Inx as PtrInx>::maxi(),
    ensures r.wf(), r.gen() == 2, exists|ps: Seq<P>| #[trigger] holds(r, ps, iter.items()),
@start
    let ghost all = iter.items();
    let ghost mut ps: Seq<P> = Seq::empty();
@loop 0
    invariant a.wf(), a.gen() == 2, ps.len() <= all.len(), $it.rest() == all.skip(ps.len() as int), holds(a, ps, all.take(ps.len() as int)),
    ensures ps.len() == all.len(),
    decreases $it.rest().len(),
@pre insert 0
    let ghost oa = a;
@at insert 0
    proof {
        let x = all[ps.len() as int];
        let p = choose|p: P| oa.at((#[trigger] p.sinx()).ival()) is None && put(oa, a, p, x);
        assert(put(oa, a, p, x));
        let o = ps;
        ps = ps.push(p);
        assert forall|i: int| 0 <= i < ps.len() implies a.has(#[trigger] ps[i]) && a.val(ps[i]) == all.take(ps.len() as int)[i] by {
            if i < o.len() { assert(oa.has(o[i]) && oa.val(o[i]) == all.take(o.len() as int)[i]); }
        }
        assert forall|i: int, j: int| #![trigger ps[i], ps[j]] 0 <= i < j < ps.len() implies ps[i].sinx().ival() != ps[j].sinx().ival() by {
            assert(oa.has(o[i]));
        }
    }
@end
    proof { assert(all.take(ps.len() as int) =~= all); assert(holds(__r, ps, all)); }
@@module ord_from_iter ord/ord_iterators.rs
@@text
use core::cmp::Ordering;
use vstd::std_specs::cmp::*;
use crate::any_iter::{Iterator, IntoIterator};
broadcast use {ptr_axioms, ax_vec_len, ax_vec_cap, arena_lemmas};
@@text props=O01,O04
/// keys that have been present stay so when an entry is added
pub proof fn lemma_kept<P: Ptr, K: Ord, V>(o: OrdArena<P, K, V>, n: OrdArena<P, K, V>, p: P, k: K, v: V, x: K)
    requires o.wf(), n.wf(), added(o, n, p, k, v),
    ensures present(o, x) ==> present(n, x), ord_law::<K>() ==> present(n, k),
{
    let i = choose|i: int| #[trigger] ord_ins(o, n, i, p, k, v);
    assert(n.order()[i] == p.sinx());
    if ord_law::<K>() { assert(k.cmp_spec(&k) == Ordering::Equal); assert(k.cmp_spec(&n.key(n.order()[i])) == Ordering::Equal); }
    if present(o, x) {
        let j = choose|j: int| 0 <= j < o.order().len() && x.cmp_spec(&o.key(#[trigger] o.order()[j])) == Ordering::Equal;
        let j2 = if j < i { j } else { j + 1 };
        assert(n.order()[j2] == o.order()[j]);
        lemma_pos(o, j);
        assert(n.same_at(o, o.order()[j]));
        assert(x.cmp_spec(&n.key(n.order()[j2])) == Ordering::Equal);
    }
}

/// ... and when a value is replaced
pub proof fn lemma_kept_val<P: Ptr, K: Ord, V>(o: OrdArena<P, K, V>, n: OrdArena<P, K, V>, p: P, v: V, x: K)
    requires o.wf(), n.wf(), revalued(o, n, p, v),
    ensures present(o, x) ==> present(n, x), x.cmp_spec(&o.key(p.sinx())) == Ordering::Equal ==> present(n, x),
{
    lemma_live(o, p.sinx());
    assert(n.order()[o.pos(p.sinx())] == p.sinx());
    if present(o, x) {
        let j = choose|j: int| 0 <= j < o.order().len() && x.cmp_spec(&o.key(#[trigger] o.order()[j])) == Ordering::Equal;
        lemma_pos(o, j);
        if o.order()[j] != p.sinx() { assert(n.same_at(o, o.order()[j])); }
        assert(x.cmp_spec(&n.key(n.order()[j])) == Ordering::Equal);
    }
}
@@fn OrdArena as FromIterator::from_iter name=vp_from_iter props=O01,O04
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
    requires iter.items().len() <= <P::Inx as PtrInx>::maxi(),
    ensures r.wf(), r.a.a.len <= iter.items().len(), ord_law::<K>() ==> r.sorted(),
        ord_law::<K>() ==> forall|i: int| 0 <= i < iter.items().len() ==> #[trigger] present(r, iter.items()[i].0),
@start
    let ghost all = iter.items();
    let ghost mut n: int = 0;
@loop 0
    invariant a.wf(), a.a.a.len <= n <= all.len(), $it.rest() == all.skip(n),
        ord_law::<K>() ==> a.sorted(),
        ord_law::<K>() ==> forall|i: int| 0 <= i < n ==> #[trigger] present(a, all[i].0),
    ensures n == all.len(),
    decreases $it.rest().len(),
@pre insert 0
    let ghost oa = a;
@at insert 0
    proof {
        let k = all[n].0;
        let v = all[n].1;
        if ord_law::<K>() {
            if exists|p: P| added(oa, a, p, k, v) {
                let p = choose|p: P| added(oa, a, p, k, v);
                assert forall|i: int| 0 <= i <= n implies #[trigger] present(a, all[i].0) by {
                    lemma_kept(oa, a, p, k, v, all[i].0);
                }
            } else {
                let p = choose|p: P| revalued(oa, a, p, v) && k.cmp_spec(&oa.key(p.sinx())) == Ordering::Equal;
                assert forall|i: int| 0 <= i <= n implies #[trigger] present(a, all[i].0) by {
                    lemma_kept_val(oa, a, p, v, all[i].0);
                }
            }
        }
        n = n + 1;
    }
