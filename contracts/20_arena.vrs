@@module arena_spec arena/base_arena.rs
@@text
broadcast use {ptr_axioms, ax_vec_len, ax_vec_cap};
@@type InternalEntry
@@text
pub use InternalEntry::*;
@@text
/// derived in the source
impl<P: Ptr, T: Clone> Clone for InternalEntry<P, T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures match *self {
            Free(x) => r == InternalEntry::<P, T>::Free(x),
            Allocated(g, t) => r is Allocated && r->Allocated_0 == g && cloned(t, r->Allocated_1),
        }
    { unimplemented!() }
}
@@type Arena
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(T)]
@@text props=A01,A03,A04
pub open spec fn ent<P: Ptr, T>(m: Seq<InternalEntry<P, T>>, i: int) -> Option<(P::Gen, T)> {
    if 1 <= i <= m.len() {
        match m[i - 1] {
            Allocated(g, t) => Some((g, t)),
            Free(_) => None,
        }
    } else {
        None
    }
}

/// The same as `ent`, but never a reason to look further
pub open spec fn entx<P: Ptr, T>(m: Seq<InternalEntry<P, T>>, i: int) -> Option<(P::Gen, T)> {
    if 1 <= i <= m.len() {
        match m[i - 1] {
            Allocated(g, t) => Some((g, t)),
            Free(_) => None,
        }
    } else {
        None
    }
}

pub open spec fn mkp<P: Ptr>(i: int, g: P::Gen) -> P {
    P::smk(<P::Inx as PtrInx>::simk(i), g)
}

impl<P: Ptr, T> Arena<P, T> {
    /// The entry at raw index `i`, with its generation
    pub open spec fn at(self, i: int) -> Option<(P::Gen, T)> {
        ent(self.m@, i)
    }

    /// `p` is a valid pointer
    pub open spec fn has(self, p: P) -> bool {
        self.at(p.sinx().ival()) is Some && self.at(p.sinx().ival()).unwrap().0 == p.sgen()
    }

    pub open spec fn val(self, p: P) -> T {
        self.at(p.sinx().ival()).unwrap().1
    }

    pub open spec fn cap(self) -> int {
        self.m@.len() as int
    }

    pub open spec fn gen(self) -> int {
        self.generation.gval()
    }

    /// The pointer to the entry at index `i`
    pub open spec fn ptr_at(self, i: int) -> P {
        mkp(i, self.at(i).unwrap().0)
    }

    /// every live entry carries a generation between 2 and the current one
    pub open spec fn gens_ok(self) -> bool {
        &&& self.gen() >= 2
        &&& forall|i: int| #![trigger self.m@[i]] 0 <= i < self.m@.len() && self.m@[i] is Allocated
            ==> 2 <= self.m@[i]->Allocated_0.gval() <= self.gen()
    }

    /// The data structure invariant
    pub open spec fn wf(self) -> bool {
        &&& self.m.wf()
        &&& self.cap() <= <P::Inx as PtrInx>::maxi()
        &&& fl_ok(self.m@, self.freelist_root)
        &&& cnt(self.m@) == self.len
        &&& self.gens_ok()
    }

    /// nothing but the parts related to entry `i` changed
    pub open spec fn same_except(self, o: Self, i: int) -> bool {
        forall|j: int| #![trigger ent(self.m@, j)] #![trigger entx(self.m@, j)] j != i ==> ent(self.m@, j) == ent(o.m@, j)
    }

    pub open spec fn same_except2(self, o: Self, i: int, k: int) -> bool {
        forall|j: int| #![trigger ent(self.m@, j)] #![trigger entx(self.m@, j)] j != i && j != k ==> ent(self.m@, j) == ent(o.m@, j)
    }

    pub open spec fn none_left(self) -> bool {
        forall|j: int| (#[trigger] ent(self.m@, j)) is None
    }

    pub open spec fn same(self, o: Self) -> bool {
        &&& forall|j: int| #![trigger ent(self.m@, j)] #![trigger entx(self.m@, j)] ent(self.m@, j) == ent(o.m@, j)
        &&& self.gen() == o.gen()
        &&& self.len == o.len
    }

    /// `p` can never become valid again
    pub open spec fn dead(self, p: P) -> bool {
        !self.has(p) && p.sgen().gval() < self.gen()
    }

    /// What every operation may do with respect to pointer validity: the
    /// counter never goes back, and a newly valid pointer carries a generation
    /// that is not older than the counter was
    pub open spec fn step(self, o: Self) -> bool {
        &&& o.gen() <= self.gen()
        &&& forall|p: P| #[trigger] self.has(p) && !o.has(p) ==> p.sgen().gval() >= o.gen()
    }
}

/// Invalidated pointers stay invalid over any number of steps
pub proof fn lemma_dead_stable<P: Ptr, T>(a: Arena<P, T>, b: Arena<P, T>, p: P)
    requires b.step(a), a.dead(p),
    ensures b.dead(p),
{
}

pub open spec fn fl_node<P: Ptr, T>(m: Seq<InternalEntry<P, T>>, fl: Seq<int>, k: int) -> bool {
    &&& 1 <= fl[k] <= m.len()
    &&& m[fl[k] - 1] is Free
    &&& m[fl[k] - 1]->Free_0.ival() == (if k + 1 < fl.len() { fl[k + 1] } else { fl[k] })
}

/// `fl` lists the free entries in freelist order
pub open spec fn fl_is<P: Ptr, T>(m: Seq<InternalEntry<P, T>>, root: Option<P::Inx>, fl: Seq<int>) -> bool {
    &&& (root is None <==> fl.len() == 0)
    &&& (root is Some ==> fl[0] == root.unwrap().ival())
    &&& forall|k: int| 0 <= k < fl.len() ==> #[trigger] fl_node(m, fl, k)
    &&& forall|j: int, k: int| #![trigger fl[j], fl[k]] 0 <= j < k < fl.len() ==> fl[j] != fl[k]
    &&& forall|i: int| #![trigger m[i]] 0 <= i < m.len() && m[i] is Free ==> fl.contains(i + 1)
}

#[verifier::opaque]
pub open spec fn fl_ok<P: Ptr, T>(m: Seq<InternalEntry<P, T>>, root: Option<P::Inx>) -> bool {
    exists|fl: Seq<int>| #[trigger] fl_is(m, root, fl)
}

/// number of allocated entries
pub open spec fn cnt<P: Ptr, T>(m: Seq<InternalEntry<P, T>>) -> nat
    decreases m.len(),
{
    if m.len() == 0 {
        0
    } else {
        cnt(m.drop_last()) + (if m.last() is Allocated { 1nat } else { 0nat })
    }
}

pub proof fn lemma_cnt_take<P: Ptr, T>(m: Seq<InternalEntry<P, T>>, i: int)
    requires 0 <= i < m.len(),
    ensures cnt(m.take(i + 1)) == cnt(m.take(i)) + one(m[i]),
{
    assert(m.take(i + 1).drop_last() =~= m.take(i));
}

pub proof fn lemma_cnt_take_le<P: Ptr, T>(m: Seq<InternalEntry<P, T>>, i: int)
    requires 0 <= i <= m.len(),
    ensures cnt(m.take(i)) <= cnt(m),
    decreases m.len() - i,
{
    if i < m.len() {
        lemma_cnt_take(m, i);
        lemma_cnt_take_le(m, i + 1);
    } else {
        assert(m.take(i) =~= m);
    }
}

/// 1-based rank of the allocated entry at raw index `i` among all of them
pub open spec fn rank<P: Ptr, T>(m: Seq<InternalEntry<P, T>>, i: int) -> int {
    cnt(m.take(i)) as int
}

pub open spec fn one<P: Ptr, T>(e: InternalEntry<P, T>) -> int {
    if e is Allocated { 1 } else { 0 }
}

pub broadcast proof fn lemma_cnt_update<P: Ptr, T>(m: Seq<InternalEntry<P, T>>, i: int, e: InternalEntry<P, T>)
    requires 0 <= i < m.len(),
    ensures #[trigger] cnt(m.update(i, e)) == cnt(m) - one(m[i]) + one(e),
    decreases m.len(),
{
    let n = m.update(i, e);
    if i == m.len() - 1 {
        assert(n.drop_last() =~= m.drop_last());
    } else {
        lemma_cnt_update(m.drop_last(), i, e);
        assert(n.drop_last() =~= m.drop_last().update(i, e));
    }
}

pub broadcast proof fn lemma_cnt_push<P: Ptr, T>(m: Seq<InternalEntry<P, T>>, e: InternalEntry<P, T>)
    ensures #[trigger] cnt(m.push(e)) == cnt(m) + one(e),
{
    assert(m.push(e).drop_last() =~= m);
}

pub broadcast proof fn lemma_cnt_bound<P: Ptr, T>(m: Seq<InternalEntry<P, T>>)
    ensures #[trigger] cnt(m) <= m.len(),
    decreases m.len(),
{
    if m.len() > 0 {
        lemma_cnt_bound(m.drop_last());
    }
}

pub broadcast proof fn lemma_cnt_some<P: Ptr, T>(m: Seq<InternalEntry<P, T>>, i: int)
    requires 0 <= i < m.len(), m[i] is Allocated,
    ensures #![trigger cnt(m), m[i]] cnt(m) >= 1,
    decreases m.len(),
{
    if i < m.len() - 1 {
        lemma_cnt_some(m.drop_last(), i);
    }
}

pub proof fn lemma_cnt_zero<P: Ptr, T>(m: Seq<InternalEntry<P, T>>)
    requires forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]) is Free,
    ensures cnt(m) == 0,
    decreases m.len(),
{
    if m.len() > 0 {
        assert(m[m.len() - 1] is Free);
        assert forall|i: int| 0 <= i < m.len() - 1 implies (#[trigger] m.drop_last()[i]) is Free by {
            assert(m[i] is Free);
        }
        lemma_cnt_zero(m.drop_last());
    }
}

pub proof fn lemma_cnt_same<P: Ptr, T, U>(m: Seq<InternalEntry<P, T>>, n: Seq<InternalEntry<P, U>>)
    requires m.len() == n.len(),
        forall|i: int| 0 <= i < m.len() ==> ((#[trigger] m[i]) is Free <==> n[i] is Free),
    ensures cnt(m) == cnt(n),
    decreases m.len(),
{
    if m.len() > 0 {
        assert(m[m.len() - 1] is Free <==> n[m.len() - 1] is Free);
        assert forall|i: int| 0 <= i < m.len() - 1 implies ((#[trigger] m.drop_last()[i]) is Free <==> n.drop_last()[i] is Free) by {
            assert(m[i] is Free <==> n[i] is Free);
        }
        lemma_cnt_same(m.drop_last(), n.drop_last());
    }
}

/// all entries allocated
pub broadcast proof fn lemma_cnt_full<P: Ptr, T>(m: Seq<InternalEntry<P, T>>)
    ensures #![trigger cnt(m)] (forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]) is Allocated) <==> cnt(m) == m.len(),
    decreases m.len(),
{
    if m.len() > 0 {
        lemma_cnt_full(m.drop_last());
        lemma_cnt_bound(m.drop_last());
        if cnt(m) == m.len() {
            assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i]) is Allocated by {
                if i < m.len() - 1 {
                    assert(m.drop_last()[i] is Allocated);
                }
            }
        }
        if forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]) is Allocated {
            assert(m[m.len() - 1] is Allocated);
            assert forall|i: int| 0 <= i < m.len() - 1 implies (#[trigger] m.drop_last()[i]) is Allocated by {
                assert(m[i] is Allocated);
            }
        }
    }
}

/// basic consequences of a good freelist
pub broadcast proof fn lemma_fl_basic<P: Ptr, T>(m: Seq<InternalEntry<P, T>>, root: Option<P::Inx>)
    requires #[trigger] fl_ok(m, root),
    ensures
        root is Some ==> 1 <= root.unwrap().ival() <= m.len() && m[root.unwrap().ival() - 1] is Free
            && cnt(m) < m.len()
            && 1 <= m[root.unwrap().ival() - 1]->Free_0.ival() <= m.len()
            && m[m[root.unwrap().ival() - 1]->Free_0.ival() - 1] is Free,
        root is None ==> cnt(m) == m.len() && forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]) is Allocated,
{
    reveal(fl_ok);
    let fl = choose|fl: Seq<int>| #[trigger] fl_is(m, root, fl);
    lemma_cnt_full(m);
    lemma_cnt_bound(m);
    if root is Some {
        assert(fl_node(m, fl, 0));
        if fl.len() > 1 {
            assert(fl_node(m, fl, 1));
        }
    } else {
        assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i]) is Allocated by {
            if m[i] is Free {
                assert(fl.contains(i + 1));
            }
        }
    }
}

/// an entry goes to the front of the freelist
pub broadcast proof fn lemma_fl_free<P: Ptr, T>(m: Seq<InternalEntry<P, T>>, root: Option<P::Inx>, i: int, e: InternalEntry<P, T>, root2: Option<P::Inx>)
    requires
        #[trigger] fl_ok(m, root), 0 <= i < m.len(), m[i] is Allocated, e is Free,
        root2 is Some && root2.unwrap().ival() == i + 1,
        e->Free_0.ival() == (if root is Some { root.unwrap().ival() } else { i + 1 }),
    ensures #[trigger] fl_ok(m.update(i, e), root2),
{
    reveal(fl_ok);
    let fl = choose|fl: Seq<int>| #[trigger] fl_is(m, root, fl);
    let n = m.update(i, e);
    let fl2 = seq![i + 1] + fl;
    assert forall|k: int| 0 <= k < fl2.len() implies #[trigger] fl_node(n, fl2, k) by {
        if k > 0 {
            assert(fl_node(m, fl, k - 1));
            assert(fl2[k] == fl[k - 1]);
            assert(fl[k - 1] - 1 != i);
            if k + 1 < fl2.len() {
                assert(fl2[k + 1] == fl[k]);
            }
        } else if fl.len() > 0 {
            assert(fl_node(m, fl, 0));
            assert(fl2[1] == fl[0]);
        }
    }
    assert forall|j: int, k: int| #![trigger fl2[j], fl2[k]] 0 <= j < k < fl2.len() implies fl2[j] != fl2[k] by {
        assert(fl_node(m, fl, k - 1));
        assert(fl2[k] == fl[k - 1]);
        if j > 0 {
            assert(fl2[j] == fl[j - 1]);
        }
    }
    assert forall|j: int| #![trigger n[j]] 0 <= j < n.len() && n[j] is Free implies fl2.contains(j + 1) by {
        if j == i {
            assert(fl2[0] == j + 1);
        } else {
            assert(m[j] is Free);
            let k = choose|k: int| 0 <= k < fl.len() && fl[k] == j + 1;
            assert(fl2[k + 1] == j + 1);
        }
    }
    assert(fl_is(n, root2, fl2));
}

/// the front of the freelist is taken
pub broadcast proof fn lemma_fl_take<P: Ptr, T>(m: Seq<InternalEntry<P, T>>, root: Option<P::Inx>, i: int, e: InternalEntry<P, T>, root2: Option<P::Inx>)
    requires
        #[trigger] fl_ok(m, root), root is Some, root.unwrap().ival() == i + 1, e is Allocated,
        m[i]->Free_0 == root.unwrap() ==> root2 is None,
        m[i]->Free_0 != root.unwrap() ==> root2 == Some(m[i]->Free_0),
    ensures #[trigger] fl_ok(m.update(i, e), root2),
{
    reveal(fl_ok);
    let fl = choose|fl: Seq<int>| #[trigger] fl_is(m, root, fl);
    let n = m.update(i, e);
    let fl2 = fl.subrange(1, fl.len() as int);
    assert(fl[0] == i + 1);
    assert(fl_node(m, fl, 0));
    if fl.len() > 1 {
        assert(fl[1] != fl[0]);
    }
    assert forall|k: int| 0 <= k < fl2.len() implies #[trigger] fl_node(n, fl2, k) by {
        assert(fl_node(m, fl, k + 1));
        assert(fl2[k] == fl[k + 1]);
        assert(fl[k + 1] != fl[0]);
        if k + 1 < fl2.len() {
            assert(fl2[k + 1] == fl[k + 2]);
        }
    }
    assert forall|j: int, k: int| #![trigger fl2[j], fl2[k]] 0 <= j < k < fl2.len() implies fl2[j] != fl2[k] by {
        assert(fl2[k] == fl[k + 1]);
        assert(fl2[j] == fl[j + 1]);
    }
    assert forall|j: int| #![trigger n[j]] 0 <= j < n.len() && n[j] is Free implies fl2.contains(j + 1) by {
        assert(m[j] is Free);
        let k = choose|k: int| 0 <= k < fl.len() && fl[k] == j + 1;
        assert(k != 0);
        assert(fl2[k - 1] == j + 1);
    }
    assert(fl_is(n, root2, fl2));
}

/// an allocated entry is overwritten by an allocated entry
pub broadcast proof fn lemma_fl_keep<P: Ptr, T>(m: Seq<InternalEntry<P, T>>, root: Option<P::Inx>, i: int, e: InternalEntry<P, T>)
    requires fl_ok(m, root), 0 <= i < m.len(), m[i] is Allocated, e is Allocated,
    ensures #[trigger] fl_ok(m.update(i, e), root),
{
    reveal(fl_ok);
    let fl = choose|fl: Seq<int>| #[trigger] fl_is(m, root, fl);
    let n = m.update(i, e);
    assert forall|j: int| #![trigger n[j]] 0 <= j < n.len() && n[j] is Free implies fl.contains(j + 1) by {
        assert(m[j] is Free);
    }
    assert forall|k: int| 0 <= k < fl.len() implies #[trigger] fl_node(n, fl, k) by {
        assert(fl_node(m, fl, k));
    }
    assert(fl_is(n, root, fl));
}

pub broadcast proof fn lemma_ent_update<P: Ptr, T>(m: Seq<InternalEntry<P, T>>, i: int, e: InternalEntry<P, T>, j: int)
    requires 0 <= i < m.len(),
    ensures #[trigger] ent(m.update(i, e), j) == (if j == i + 1 {
            match e { Allocated(g, t) => Some((g, t)), Free(_) => None }
        } else { ent(m, j) }),
{
}

/// writing back what was there
pub broadcast proof fn lemma_update_same<A>(m: Seq<A>, i: int)
    requires 0 <= i < m.len(),
    ensures #[trigger] m.update(i, m[i]) == m,
{
    assert(m.update(i, m[i]) =~= m);
}

/// last of two writes wins
pub broadcast proof fn lemma_update_update<A>(m: Seq<A>, i: int, a: A, b: A)
    requires 0 <= i < m.len(),
    ensures #[trigger] m.update(i, a).update(i, b) == m.update(i, b),
{
    assert(m.update(i, a).update(i, b) =~= m.update(i, b));
}

/// entries keep their kind and the free ones their links
pub proof fn lemma_fl_same<P: Ptr, T, U>(m: Seq<InternalEntry<P, T>>, n: Seq<InternalEntry<P, U>>, root: Option<P::Inx>)
    requires fl_ok(m, root), m.len() == n.len(),
        forall|i: int| 0 <= i < m.len() ==> ((#[trigger] m[i]) is Free <==> n[i] is Free),
        forall|i: int| 0 <= i < m.len() && (#[trigger] m[i]) is Free ==> m[i]->Free_0 == n[i]->Free_0,
    ensures fl_ok(n, root),
{
    reveal(fl_ok);
    let fl = choose|fl: Seq<int>| #[trigger] fl_is(m, root, fl);
    assert forall|j: int| #![trigger n[j]] 0 <= j < n.len() && n[j] is Free implies fl.contains(j + 1) by {
        assert(m[j] is Free);
    }
    assert forall|k: int| 0 <= k < fl.len() implies #[trigger] fl_node(n, fl, k) by {
        assert(fl_node(m, fl, k));
        assert(m[fl[k] - 1] is Free);
    }
    assert(fl_is(n, root, fl));
}

/// `n` extends `m` by free entries chained in order, the last one pointing to
/// the old root or to itself
pub open spec fn extends_free<P: Ptr, T>(m: Seq<InternalEntry<P, T>>, root: Option<P::Inx>, n: Seq<InternalEntry<P, T>>) -> bool {
    &&& n.len() > m.len()
    &&& forall|i: int| #![trigger n[i]] 0 <= i < m.len() ==> n[i] == m[i]
    &&& forall|i: int| #![trigger n[i]] m.len() <= i < n.len() ==> n[i] is Free
        && n[i]->Free_0.ival() == (if i + 1 < n.len() { i + 2 } else if root is Some { root.unwrap().ival() } else { n.len() as int })
}

pub proof fn lemma_fl_extend<P: Ptr, T>(m: Seq<InternalEntry<P, T>>, root: Option<P::Inx>, n: Seq<InternalEntry<P, T>>, root2: Option<P::Inx>)
    requires fl_ok(m, root), extends_free(m, root, n), root2 is Some, root2.unwrap().ival() == m.len() + 1,
    ensures fl_ok(n, root2), cnt(n) == cnt(m),
{
    reveal(fl_ok);
    let fl = choose|fl: Seq<int>| #[trigger] fl_is(m, root, fl);
    let d = n.len() - m.len();
    let fl2 = Seq::new(d as nat, |k: int| m.len() + k + 1) + fl;
    assert forall|k: int| 0 <= k < fl2.len() implies #[trigger] fl_node(n, fl2, k) by {
        if k < d {
            assert(fl2[k] == m.len() + k + 1);
            assert(n[m.len() + k] is Free);
            if k + 1 < d {
                assert(fl2[k + 1] == m.len() + k + 2);
            } else if fl.len() > 0 {
                assert(fl2[k + 1] == fl[0]);
            }
        } else {
            assert(fl_node(m, fl, k - d));
            assert(fl2[k] == fl[k - d]);
            assert(n[fl[k - d] - 1] == m[fl[k - d] - 1]);
            if k + 1 < fl2.len() {
                assert(fl2[k + 1] == fl[k - d + 1]);
            }
        }
    }
    assert forall|j: int, k: int| #![trigger fl2[j], fl2[k]] 0 <= j < k < fl2.len() implies fl2[j] != fl2[k] by {
        if j >= d {
            assert(fl2[j] == fl[j - d]);
            assert(fl2[k] == fl[k - d]);
        } else if k >= d {
            assert(fl_node(m, fl, k - d));
            assert(fl2[k] == fl[k - d]);
        }
    }
    assert forall|j: int| #![trigger n[j]] 0 <= j < n.len() && n[j] is Free implies fl2.contains(j + 1) by {
        if j >= m.len() {
            assert(fl2[j - m.len()] == j + 1);
        } else {
            assert(m[j] is Free);
            let k = choose|k: int| 0 <= k < fl.len() && fl[k] == j + 1;
            assert(fl2[k + d] == j + 1);
        }
    }
    assert(fl2.len() > 0);
    assert(fl2[0] == m.len() + 1);
    assert(fl_is(n, root2, fl2));
    lemma_cnt_extend(m, n);
}

pub proof fn lemma_cnt_extend<P: Ptr, T>(m: Seq<InternalEntry<P, T>>, n: Seq<InternalEntry<P, T>>)
    requires n.len() >= m.len(), forall|i: int| 0 <= i < m.len() ==> #[trigger] n[i] == m[i],
        forall|i: int| m.len() <= i < n.len() ==> (#[trigger] n[i]) is Free,
    ensures cnt(n) == cnt(m),
    decreases n.len(),
{
    if n.len() == m.len() {
        assert(n =~= m);
    } else {
        assert(n[n.len() - 1] is Free);
        lemma_cnt_extend(m, n.drop_last());
    }
}

pub broadcast proof fn lemma_fl_empty<P: Ptr, T>(m: Seq<InternalEntry<P, T>>)
    requires cnt(m) == m.len(),
    ensures #[trigger] fl_ok(m, None::<P::Inx>),
{
    reveal(fl_ok);
    lemma_cnt_full(m);
    let fl = Seq::<int>::empty();
    assert forall|j: int| #![trigger m[j]] 0 <= j < m.len() && m[j] is Free implies fl.contains(j + 1) by {
        assert(m[j] is Allocated);
    }
    assert(fl_is(m, None, fl));
}

pub broadcast group arena_lemmas {
    lemma_cnt_update, lemma_cnt_push, lemma_cnt_bound, lemma_cnt_some, lemma_fl_basic, lemma_fl_free, lemma_fl_take,
    lemma_fl_keep, lemma_update_same, lemma_update_update, lemma_fl_empty, lemma_ent_update,
}
@@module base_arena arena/base_arena.rs
@@text
broadcast use {ptr_axioms, ax_vec_len, ax_vec_cap, arena_lemmas};
@@fn InternalEntry::replace_free_with_allocated props=A02,A03
    ensures *final(self) == InternalEntry::<P, T>::Allocated(generation, t),
        r == (match *old(self) { Free(i) => Some(i), _ => None }),
@@text props=A03
/// all free entries are those after the first `k`, to be used in order
pub open spec fn seq_from<P: Ptr, T>(m: Seq<InternalEntry<P, T>>, root: Option<P::Inx>, k: int) -> bool {
    &&& 0 <= k <= m.len()
    &&& k < m.len() ==> root is Some && root.unwrap().ival() == k + 1
    &&& k == m.len() ==> root is None
    &&& forall|i: int| #![trigger m[i]] 0 <= i < k ==> m[i] is Allocated
    &&& forall|i: int| #![trigger m[i]] k <= i < m.len() ==> m[i] is Free && m[i]->Free_0.ival() == (if i + 1 < m.len() { i + 2 } else { i + 1 })
}
@@fn Arena::new props=A03,A04
    ensures r.wf(), r.len == 0, r.gen() == 2, r.cap() == 0, r.none_left(),
@@fn Arena::len props=A02
    ensures r == self.len,
@@fn Arena::is_empty props=A02
    ensures r == (self.len == 0),
@@fn Arena::capacity props=A03
    ensures r == self.cap(),
@@fn Arena::generation props=A04
    ensures r == self.generation,
@@fn Arena::set_gen props=A04
    ensures final(self).generation == new_gen, final(self).m == old(self).m, final(self).len == old(self).len,
        final(self).freelist_root == old(self).freelist_root,
@@fn Arena::inc_gen props=A04
    ensures final(self).gen() == old(self).gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int }),
        final(self).m == old(self).m, final(self).len == old(self).len,
        final(self).freelist_root == old(self).freelist_root,
@@fn Arena::reserve props=A03
    requires old(self).wf(), old(self).cap() + additional <= <P::Inx as PtrInx>::maxi(),
    ensures final(self).wf(), final(self).cap() == old(self).cap() + additional,
        final(self).same(*old(self)), final(self).generation == old(self).generation,
        old(self).cap() == 0 ==> seq_from(final(self).m@, final(self).freelist_root, 0),
@before 0
    let ghost s0 = *self;
@loop 0
    invariant
        self.m.wf(), old_virt_cap == old(self).cap(), target == old_virt_cap + additional, target <= <P::Inx as PtrInx>::maxi(),
        remaining == additional, additional > 0, target <= usize::MAX,
        self.len == s0.len, self.generation == s0.generation, old_root == old(self).freelist_root,
        self.freelist_root is Some && self.freelist_root.unwrap().ival() == old_virt_cap + 1,
        __e0 == target + 1,
        old_virt_cap + 2 <= __i0,
        __i0 <= target + 1,
        self.m@.len() == __i0 - 2,
        forall|i: int| #![trigger self.m@[i]] 0 <= i < old_virt_cap ==> self.m@[i] == old(self).m@[i],
        forall|i: int| #![trigger self.m@[i]] old_virt_cap <= i < self.m@.len() ==> self.m@[i] is Free && self.m@[i]->Free_0.ival() == i + 2,
    decreases __e0 - __i0,
@end
    proof {
        if additional > 0 {
            lemma_fl_extend(old(self).m@, old(self).freelist_root, self.m@, self.freelist_root);
        }
    }
@@fn Arena::with_capacity props=A03
    requires capacity <= <P::Inx as PtrInx>::maxi(),
    ensures r.wf(), r.len == 0, r.cap() == capacity, r.gen() == 2, r.none_left(), seq_from(r.m@, r.freelist_root, 0),
@@fn Arena::m_get props=A01,A02
    requires self.m.wf(),
    ensures match r {
        Some(x) => 1 <= inx.ival() <= self.m@.len() && *x == self.m@[inx.ival() - 1],
        None => inx.ival() > self.m@.len(),
    },
@@fn Arena::m_get_mut props=A01,A02
    requires old(self).m.wf(),
    ensures final(self).m.wf(), match r {
            Some(x) => 1 <= inx.ival() <= old(self).m@.len() && *x == old(self).m@[inx.ival() - 1]
                && final(self).m@ == old(self).m@.update(inx.ival() - 1, *final(x)),
            None => inx.ival() > old(self).m@.len() && final(self).m == old(self).m,
        },
        final(self).len == old(self).len, final(self).freelist_root == old(self).freelist_root,
        final(self).generation == old(self).generation,
@@fn Arena::unwrap_replace_free props=A02,A03
    requires old(self).m.wf(), fl_ok(old(self).m@, old(self).freelist_root), old(self).freelist_root == Some(inx),
    ensures final(self).m.wf(), final(self).m@ == old(self).m@.update(inx.ival() - 1, Allocated(generation, t)),
        old(self).at(inx.ival()) is None, final(self).at(inx.ival()) == Some((generation, t)),
        final(self).same_except(*old(self), inx.ival()),
        fl_ok(final(self).m@, final(self).freelist_root),
        final(self).len == old(self).len, final(self).generation == old(self).generation,
        forall|k: int| #[trigger] seq_from(old(self).m@, old(self).freelist_root, k) ==> inx.ival() == k + 1 && seq_from(final(self).m@, final(self).freelist_root, k + 1),
@@fn Arena::try_insert props=A01,A02,A03
    requires old(self).wf(),
    ensures final(self).wf(), final(self).generation == old(self).generation, final(self).cap() == old(self).cap(),
        match r {
            Ok(p) => old(self).len < old(self).cap() && old(self).at(p.sinx().ival()) is None && final(self).at(p.sinx().ival()) == Some((p.sgen(), t))
                && p.sgen() == old(self).generation
                && final(self).same_except(*old(self), p.sinx().ival()) && final(self).len == old(self).len + 1
                && forall|k: int| #[trigger] seq_from(old(self).m@, old(self).freelist_root, k) ==> p.sinx().ival() == k + 1 && seq_from(final(self).m@, final(self).freelist_root, k + 1),
            Err(u) => u == t && *final(self) == *old(self) && old(self).len == old(self).cap(),
        },
@@fn Arena::try_insert_with props=A01,A02,A03
    requires old(self).wf(), forall|p: P| create.requires((p,)),
    ensures final(self).wf(), final(self).generation == old(self).generation, final(self).cap() == old(self).cap(),
        match r {
            Ok(p) => old(self).len < old(self).cap() && old(self).at(p.sinx().ival()) is None && final(self).has(p)
                && create.ensures((p,), final(self).val(p))
                && p.sgen() == old(self).generation
                && final(self).same_except(*old(self), p.sinx().ival()) && final(self).len == old(self).len + 1,
            Err(u) => u == create && *final(self) == *old(self) && old(self).len == old(self).cap(),
        },
@@fn Arena::insert props=A01,A02,A03
    requires old(self).wf(), old(self).len < <P::Inx as PtrInx>::maxi(),
    ensures final(self).wf(), final(self).generation == old(self).generation, final(self).cap() >= old(self).cap(),
        old(self).len < old(self).cap() ==> final(self).cap() == old(self).cap(),
        old(self).at(r.sinx().ival()) is None && final(self).at(r.sinx().ival()) == Some((r.sgen(), t)),
        r.sgen() == old(self).generation,
        final(self).same_except(*old(self), r.sinx().ival()), final(self).len == old(self).len + 1,
        old(self).len < old(self).cap() ==> forall|k: int| #[trigger] seq_from(old(self).m@, old(self).freelist_root, k) ==> r.sinx().ival() == k + 1 && seq_from(final(self).m@, final(self).freelist_root, k + 1),
@@fn Arena::insert_with props=A01,A02,A03
    requires old(self).wf(), old(self).len < <P::Inx as PtrInx>::maxi(), forall|p: P| create.requires((p,)),
    ensures final(self).wf(), final(self).generation == old(self).generation, final(self).cap() >= old(self).cap(),
        old(self).len < old(self).cap() ==> final(self).cap() == old(self).cap(),
        old(self).at(r.sinx().ival()) is None && final(self).has(r), create.ensures((r,), final(self).val(r)),
        r.sgen() == old(self).generation,
        final(self).same_except(*old(self), r.sinx().ival()), final(self).len == old(self).len + 1,
@@fn Arena::contains props=A01,A02
    requires self.m.wf(),
    ensures r == self.has(p),
@@fn Arena::get props=A01,A02
    requires self.m.wf(),
    ensures match r { Some(t) => self.has(p) && *t == self.val(p), None => !self.has(p) },
@@fn Arena::get_mut props=A01,A02
    requires old(self).m.wf(),
    ensures final(self).m.wf(), match r {
            Some(t) => old(self).has(p) && *t == old(self).val(p)
                && final(self).at(p.sinx().ival()) == Some((p.sgen(), *final(t)))
                && final(self).same_except(*old(self), p.sinx().ival())
                && final(self).m@ == old(self).m@.update(p.sinx().ival() - 1, Allocated(p.sgen(), *final(t))),
            None => !old(self).has(p) && final(self).m@ == old(self).m@,
        },
        final(self).len == old(self).len, final(self).freelist_root == old(self).freelist_root,
        final(self).generation == old(self).generation,
        old(self).wf() ==> final(self).wf(),
@@fn Arena as Index::index name=vp_index mono=B:P props=A01,A02
    requires self.m.wf(), self.has(inx),
    ensures *r == self.val(inx),
@@fn Arena as IndexMut::index_mut name=vp_index_mut mono=B:P props=A01,A02
    requires old(self).m.wf(), old(self).has(inx),
    ensures final(self).m.wf(), *r == old(self).val(inx),
        final(self).at(inx.sinx().ival()) == Some((inx.sgen(), *final(r))),
        final(self).same_except(*old(self), inx.sinx().ival()),
        final(self).m@ == old(self).m@.update(inx.sinx().ival() - 1, Allocated(inx.sgen(), *final(r))),
        final(self).len == old(self).len, final(self).freelist_root == old(self).freelist_root,
        final(self).generation == old(self).generation,
        old(self).wf() ==> final(self).wf(),
@@fn Arena::get2_mut props=A01,A02
    requires old(self).m.wf(),
    ensures final(self).m.wf(), match r {
            Some((t0, t1)) => old(self).has(p0) && old(self).has(p1) && p0 != p1 && *t0 == old(self).val(p0) && *t1 == old(self).val(p1)
                && final(self).has(p0) && final(self).val(p0) == *final(t0)
                && final(self).has(p1) && final(self).val(p1) == *final(t1)
                && final(self).same_except2(*old(self), p0.sinx().ival(), p1.sinx().ival()),
            None => (p0 == p1 || !old(self).has(p0) || !old(self).has(p1)) && final(self).m@ == old(self).m@,
        },
        final(self).len == old(self).len, final(self).freelist_root == old(self).freelist_root,
        final(self).generation == old(self).generation,
        final(self).cap() == old(self).cap(),
        old(self).wf() ==> final(self).wf(),
@@fn Arena::remove_internal props=A01,A02,A03,A04
    requires old(self).wf(),
    ensures final(self).wf(), final(self).cap() == old(self).cap(),
        match r {
            Some(t) => old(self).has(p) && t == old(self).val(p) && final(self).at(p.sinx().ival()) is None
                && final(self).same_except(*old(self), p.sinx().ival()) && final(self).len == old(self).len - 1
                && final(self).gen() == old(self).gen() + (if inc_gen && <P::Gen as PtrGen>::counted() { 1int } else { 0int }),
            None => !old(self).has(p) && final(self).same(*old(self)) && final(self).m@ == old(self).m@ && final(self).generation == old(self).generation,
        },
@@fn Arena::remove_internal_inx_unwrap props=A01,A02,A03,A04
    requires old(self).wf(), old(self).at(p.ival()) is Some,
    ensures final(self).wf(), final(self).cap() == old(self).cap(),
        r == old(self).at(p.ival()).unwrap().1, final(self).at(p.ival()) is None,
        final(self).same_except(*old(self), p.ival()), final(self).len == old(self).len - 1,
        final(self).gen() == old(self).gen() + (if inc_gen && <P::Gen as PtrGen>::counted() { 1int } else { 0int }),
@@fn Arena::remove props=A01,A02,A03,A04
    requires old(self).wf(),
    ensures final(self).wf(), final(self).cap() == old(self).cap(), final(self).step(*old(self)),
        match r {
            Some(t) => old(self).has(p) && t == old(self).val(p) && final(self).at(p.sinx().ival()) is None
                && final(self).same_except(*old(self), p.sinx().ival()) && final(self).len == old(self).len - 1
                && final(self).gen() == old(self).gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int })
                && (<P::Gen as PtrGen>::counted() ==> final(self).dead(p)),
            None => !old(self).has(p) && final(self).same(*old(self)) && final(self).m@ == old(self).m@,
        },
@@fn Arena::invalidate props=A01,A02,A03,A04
    requires old(self).wf(),
    ensures final(self).wf(), final(self).cap() == old(self).cap(), final(self).step(*old(self)),
        final(self).len == old(self).len,
        match r {
            Some(q) => old(self).has(p) && q.sinx() == p.sinx() && final(self).has(q) && final(self).val(q) == old(self).val(p)
                && final(self).same_except(*old(self), p.sinx().ival())
                && final(self).gen() == old(self).gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int })
                && q.sgen().gval() == final(self).gen()
                && (<P::Gen as PtrGen>::counted() ==> final(self).dead(p)),
            None => !old(self).has(p) && final(self).same(*old(self)) && final(self).m@ == old(self).m@,
        },
@@fn Arena::replace_and_keep_gen props=A01,A02,A03,A04
    requires old(self).wf(),
    ensures final(self).wf(), final(self).cap() == old(self).cap(), final(self).generation == old(self).generation,
        final(self).len == old(self).len,
        match r {
            Ok(t) => old(self).has(p) && t == old(self).val(p) && final(self).has(p) && final(self).val(p) == new
                && final(self).same_except(*old(self), p.sinx().ival()),
            Err(t) => !old(self).has(p) && t == new && final(self).same(*old(self)),
        },
@@fn Arena::replace_and_update_gen props=A01,A02,A03,A04
    requires old(self).wf(),
    ensures final(self).wf(), final(self).cap() == old(self).cap(), final(self).step(*old(self)),
        final(self).len == old(self).len,
        match r {
            Ok((t, q)) => old(self).has(p) && t == old(self).val(p) && q.sinx() == p.sinx() && final(self).has(q) && final(self).val(q) == new
                && final(self).same_except(*old(self), p.sinx().ival())
                && final(self).gen() == old(self).gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int })
                && q.sgen().gval() == final(self).gen()
                && (<P::Gen as PtrGen>::counted() ==> final(self).dead(p)),
            Err(t) => !old(self).has(p) && t == new && final(self).same(*old(self)),
        },
@@fn Arena::swap props=A01,A02,A03,A04
    requires old(self).wf(),
    ensures final(self).wf(), final(self).cap() == old(self).cap(), final(self).generation == old(self).generation,
        final(self).len == old(self).len,
        match r {
            Some(_) => old(self).has(p0) && old(self).has(p1) && final(self).has(p0) && final(self).has(p1)
                && final(self).val(p0) == old(self).val(p1) && final(self).val(p1) == old(self).val(p0)
                && final(self).same_except2(*old(self), p0.sinx().ival(), p1.sinx().ival()),
            None => !(old(self).has(p0) && old(self).has(p1)) && final(self).same(*old(self)),
        },
@@fn Arena::clear props=A01,A02,A03,A04,A05
    requires old(self).wf(),
    ensures final(self).wf(), final(self).cap() == old(self).cap(), final(self).len == 0,
        final(self).none_left(),
        final(self).gen() == old(self).gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int }),
@before 0
    let ghost s0 = *self;
@loop 0
    invariant
        self.m.wf(), $it.wf(), len == old(self).m@.len(), self.m@.len() == len, len <= <P::Inx as PtrInx>::maxi(),
        $it.current@ + $it.left() == len + 1,
        self.generation == s0.generation, self.len == s0.len,
        forall|j: int| #![trigger self.m@[j]] 0 <= j < $it.current@ - 1 ==> self.m@[j] is Free
            && self.m@[j]->Free_0.ival() == (if j + 2 <= len { j + 2 } else { len as int }),
    ensures $it.left() == 0,
    decreases $it.left(),
@end
    proof {
        lemma_cnt_zero(self.m@);
        if self.m@.len() > 0 {
            assert(fl_ok(Seq::<InternalEntry<P, T>>::empty(), None::<P::Inx>));
            lemma_fl_extend(Seq::<InternalEntry<P, T>>::empty(), None::<P::Inx>, self.m@, self.freelist_root);
        }
    }
@@fn Arena::clear_and_shrink props=A01,A02,A03,A04,A05
    requires old(self).wf(),
    ensures final(self).wf(), final(self).cap() == 0, final(self).len == 0,
        final(self).none_left(),
        final(self).gen() == old(self).gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int }),
@@fn Arena::get_no_gen props=A01,A02
    requires self.m.wf(),
    ensures match r { Some((g, t)) => self.at(p.ival()) == Some((g, *t)), None => self.at(p.ival()) is None },
@@fn Arena::get_no_gen_mut props=A01,A02
    requires old(self).m.wf(),
    ensures final(self).m.wf(), match r {
            Some((g, t)) => old(self).at(p.ival()) == Some((g, *t)) && final(self).at(p.ival()) == Some((g, *final(t)))
                && final(self).same_except(*old(self), p.ival())
                && final(self).m@ == old(self).m@.update(p.ival() - 1, Allocated(g, *final(t))),
            None => old(self).at(p.ival()) is None && final(self).m@ == old(self).m@,
        },
        final(self).len == old(self).len, final(self).freelist_root == old(self).freelist_root,
        final(self).generation == old(self).generation,
        old(self).wf() ==> final(self).wf(),
@@fn Arena::get_inx_unwrap props=A01,A02
    requires self.m.wf(), self.at(p.ival()) is Some,
    ensures *r == self.at(p.ival()).unwrap().1,
@@fn Arena::get_inx_mut_unwrap props=A01,A02
    requires old(self).m.wf(), old(self).at(p.ival()) is Some,
    ensures final(self).m.wf(), *r == old(self).at(p.ival()).unwrap().1,
        final(self).at(p.ival()) == Some((old(self).at(p.ival()).unwrap().0, *final(r))),
        final(self).same_except(*old(self), p.ival()),
        final(self).m@ == old(self).m@.update(p.ival() - 1, Allocated(old(self).at(p.ival()).unwrap().0, *final(r))),
        final(self).len == old(self).len, final(self).freelist_root == old(self).freelist_root,
        final(self).generation == old(self).generation,
        old(self).wf() ==> final(self).wf(),
@@end
@@text
/// `f` was called with `p` and a reference to `t0`, which it left as `t1`,
/// and returned `b`
#[verifier::prophetic]
pub open spec fn called<P: Ptr, T, F: Fn(P, &mut T) -> bool>(f: F, p: P, t0: T, t1: T, b: bool) -> bool {
    exists|x: &mut T| *x == t0 && *final(x) == t1 && #[trigger] f.ensures((p, x), b)
}

#[verifier::prophetic]
pub open spec fn called_any<P: Ptr, T, F: Fn(P, &mut T) -> bool>(f: F, p: P, t0: T, b: bool) -> bool {
    exists|x: &mut T| *x == t0 && #[trigger] f.ensures((p, x), b)
}

/// entry `i` was offered to `f` and treated accordingly
#[verifier::prophetic]
pub open spec fn filtered<P: Ptr, T, F: Fn(P, &mut T) -> bool>(f: F, o: Seq<InternalEntry<P, T>>, n: Seq<InternalEntry<P, T>>, i: int) -> bool {
    match ent(o, i) {
        None => ent(n, i) is None,
        Some((g, t)) => match ent(n, i) {
            None => called_any(f, mkp::<P>(i, g), t, true),
            Some((g1, t1)) => g1 == g && called(f, mkp::<P>(i, g), t, t1, false),
        },
    }
}
@@fn Arena::remove_by props=A01,A02,A03,A04,A05
    requires old(self).wf(), forall|p: P, t: &mut T| pred.requires((p, t)),
    ensures final(self).wf(), final(self).cap() == old(self).cap(),
        forall|i: int| #![trigger ent(final(self).m@, i)] filtered(pred, old(self).m@, final(self).m@, i),
        final(self).gen() == old(self).gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int }),
@before 0
    let ghost pred0 = pred;
    let ghost s0 = *self;
@loop 0
    invariant
        pred == pred0,
        $it.wf(), self.wf(), self.m@.len() == old(self).m@.len(),
        $it.current@ + $it.left() == self.m@.len() + 1,
        self.generation == s0.generation,
        forall|p: P, t: &mut T| pred.requires((p, t)),
        forall|i: int| #![trigger ent(self.m@, i)] i < $it.current@ ==> filtered(pred, old(self).m@, self.m@, i),
        forall|i: int| #![trigger ent(self.m@, i)] #![trigger ent(old(self).m@, i)] i >= $it.current@ ==> ent(self.m@, i) == ent(old(self).m@, i),
    ensures $it.left() == 0,
    decreases $it.left(),
@@fn Arena::raw_entry_swap_special props=A02,A06
    requires old(self).m.wf(), 1 <= i0@ <= old(self).m@.len(), 1 <= i1@ <= old(self).m@.len(),
    ensures final(self).m.wf(), final(self).m@ == old(self).m@.update(i0@ - 1, old(self).m@[i1@ - 1]).update(i1@ - 1, old(self).m@[i0@ - 1]),
        final(self).len == old(self).len, final(self).generation == old(self).generation,
        final(self).freelist_root == old(self).freelist_root,
@@text
#[verifier::prophetic]
pub open spec fn called3<P: Ptr, T, F: Fn(P, &mut T, P)>(f: F, p: P, t0: T, t1: T, q: P) -> bool {
    exists|x: &mut T| *x == t0 && *final(x) == t1 && #[trigger] f.ensures((p, x, q), ())
}

/// `f` does not change its argument
#[verifier::prophetic]
pub open spec fn unchanging<P: Ptr, T, F: Fn(P, &mut T, P)>(f: F) -> bool {
    forall|p: P, x: &mut T, q: P| #[trigger] f.ensures((p, x, q), ()) ==> *final(x) == *x
}

/// the live entry at raw index `i` of `o` is at its rank in `n`
#[verifier::prophetic]
pub open spec fn moved<P: Ptr, T, F: Fn(P, &mut T, P)>(f: F, o: Seq<InternalEntry<P, T>>, n: Seq<InternalEntry<P, T>>, i: int, g: P::Gen) -> bool {
    &&& 1 <= rank(o, i) <= n.len()
    &&& ent(n, rank(o, i)) is Some
    &&& ent(n, rank(o, i)).unwrap().0 == g
    &&& called3(f, mkp::<P>(i, ent(o, i).unwrap().0), ent(o, i).unwrap().1, ent(n, rank(o, i)).unwrap().1, mkp::<P>(rank(o, i), g))
}

pub broadcast proof fn lemma_ent_push<P: Ptr, T>(m: Seq<InternalEntry<P, T>>, e: InternalEntry<P, T>, j: int)
    ensures #[trigger] ent(m.push(e), j) == (if j == m.len() + 1 {
            match e { Allocated(g, t) => Some((g, t)), Free(_) => None }
        } else { ent(m, j) }),
{
}
@@fn Arena::compress_and_shrink_with props=A01,A03,A04,A06
    requires old(self).wf(), forall|p: P, t: &mut T, q: P| map.requires((p, t, q)),
    ensures final(self).wf(), final(self).cap() == old(self).len, final(self).len == old(self).len,
        final(self).gen() == old(self).gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int }),
        forall|i: int| #![trigger ent(old(self).m@, i)] ent(old(self).m@, i) is Some
            ==> moved(map, old(self).m@, final(self).m@, i, final(self).generation),
        forall|i: int| #![trigger ent(final(self).m@, i)] 1 <= i <= final(self).m@.len()
            ==> ent(final(self).m@, i) is Some && ent(final(self).m@, i).unwrap().0 == final(self).generation,
@before 0
    let ghost map0 = map;
    proof { assert(self.m@.take(0) =~= Seq::<InternalEntry<P, T>>::empty()); }
@loop 0
    invariant
        self.m.wf(), new_m.wf(), map == map0, forall|p: P, t: &mut T, q: P| map.requires((p, t, q)),
        old(self).wf(), $it.wf(), self.m@.len() == old(self).m@.len(),
        $it.current@ + $it.left() == self.m@.len() + 1,
        self.len == old(self).len, generation == self.generation,
        self.gen() == old(self).gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int }),
        j == new_m@.len() + 1, new_m@.len() == cnt(old(self).m@.take($it.current@ - 1)),
        cnt(new_m@) == new_m@.len(),
        forall|i: int| #![trigger new_m@[i]] 0 <= i < new_m@.len() ==> new_m@[i] is Allocated && new_m@[i]->Allocated_0 == generation,
        forall|i: int| #![trigger ent(old(self).m@, i)] i < $it.current@ && ent(old(self).m@, i) is Some
            ==> moved(map, old(self).m@, new_m@, i, generation),
        forall|i: int| #![trigger self.m@[i]] $it.current@ - 1 <= i < self.m@.len() ==> self.m@[i] == old(self).m@[i],
    ensures $it.left() == 0,
    decreases $it.left(),
@body 0
    let ghost cur = $it0.current@ as int;
    proof {
        broadcast use lemma_ent_push;
        if $it0.left() > 0 {
            lemma_cnt_take(old(self).m@, cur - 1);
            lemma_cnt_take_le(old(self).m@, cur);
        }
    }
@after 0
    proof { assert(old(self).m@.take(old(self).m@.len() as int) =~= old(self).m@); }
@@fn Arena::compress_and_shrink props=A01,A03,A04,A06
    requires old(self).wf(),
    ensures final(self).wf(), final(self).cap() == old(self).len, final(self).len == old(self).len,
        final(self).gen() == old(self).gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int }),
        forall|i: int| #![trigger ent(old(self).m@, i)] ent(old(self).m@, i) is Some
            ==> ent(final(self).m@, rank(old(self).m@, i)) == Some((final(self).generation, ent(old(self).m@, i).unwrap().1)),
        forall|i: int| #![trigger ent(final(self).m@, i)] 1 <= i <= final(self).m@.len()
            ==> ent(final(self).m@, i) is Some && ent(final(self).m@, i).unwrap().0 == final(self).generation,
@closure 0
    ensures *final($1) == *old($1)
@@text
/// the entry at raw index `i` was mapped by `f`
pub open spec fn mapped<P: Ptr, T, U, F: Fn(P, &U) -> T>(f: F, o: Seq<InternalEntry<P, U>>, n: Seq<InternalEntry<P, T>>, i: int) -> bool {
    match ent(o, i) {
        None => ent(n, i) is None,
        Some((g, u)) => ent(n, i) is Some && ent(n, i).unwrap().0 == g
            && f.ensures((mkp::<P>(i, g), &u), ent(n, i).unwrap().1),
    }
}
/// `f` can be called with every entry
pub open spec fn mappable<P: Ptr, T, U, F: Fn(P, &U) -> T>(f: F, o: Seq<InternalEntry<P, U>>) -> bool {
    forall|i: int| #![trigger o[i]] 0 <= i < o.len() ==> match o[i] {
        Free(_) => true,
        Allocated(g, u) => f.requires((mkp::<P>(i + 1, g), &u)),
    }
}
@@fn Arena::clone_from_with props=A01,A03,A07
    requires old(self).wf(), source.wf(), mappable(map, source.m@),
    ensures final(self).wf(), final(self).generation == source.generation, final(self).len == source.len,
        final(self).cap() == (if source.cap() < old(self).cap() { old(self).cap() } else { source.cap() }),
        forall|i: int| #![trigger ent(final(self).m@, i)] mapped(map, source.m@, final(self).m@, i),
@before 0
    let ghost map0 = map;
@loop 0
    invariant
        self.m.wf(), map == map0, mappable(map, source.m@),
        source.wf(), $it.wf(), $it.current@ + $it.left() == source.m@.len() + 1,
        self.len == source.len, self.generation == source.generation, old_virt_cap == old(self).cap(),
        self.m@.len() == $it.current@ - 1,
        forall|i: int| #![trigger self.m@[i]] 0 <= i < self.m@.len() ==> match source.m@[i] {
            Free(x) => self.m@[i] == InternalEntry::<P, T>::Free(x),
            Allocated(g, u) => self.m@[i] is Allocated && self.m@[i]->Allocated_0 == g
                && map.ensures((mkp::<P>(i + 1, g), &u), self.m@[i]->Allocated_1),
        },
    ensures $it.left() == 0,
    decreases $it.left(),
@start
    let ghost mut m1: Seq<InternalEntry<P, T>> = Seq::empty();
@before 1
    proof {
        m1 = self.m@;
        lemma_fl_same(source.m@, m1, source.freelist_root);
        lemma_cnt_same(source.m@, m1);
    }
@loop 1
    invariant
        self.m.wf(), self.len == source.len, self.generation == source.generation, old_virt_cap == old(self).cap(),
        old(self).wf(), m1.len() == source.m@.len(),
        __e1 == old_virt_cap + 1, __i1 >= m1.len() + 2,
        self.m@.len() == __i1 - 2, __i1 <= __e1 || self.m@.len() == m1.len(),
        forall|i: int| #![trigger self.m@[i]] 0 <= i < m1.len() ==> self.m@[i] == m1[i],
        forall|i: int| #![trigger self.m@[i]] m1.len() <= i < self.m@.len() ==> self.m@[i] is Free && self.m@[i]->Free_0.ival() == i + 2,
    decreases __e1 - __i1,
@end
    proof {
        if source.cap() < old(self).cap() {
            lemma_fl_extend(m1, source.freelist_root, self.m@, self.freelist_root);
        } else {
            assert(self.m@ =~= m1);
        }
    }
@@text
/// entry `i` was cloned
pub open spec fn ent_cloned<P: Ptr, T: Clone>(o: Seq<InternalEntry<P, T>>, n: Seq<InternalEntry<P, T>>, i: int) -> bool {
    match ent(o, i) {
        None => ent(n, i) is None,
        Some((g, u)) => ent(n, i) is Some && ent(n, i).unwrap().0 == g && cloned(u, ent(n, i).unwrap().1),
    }
}
@@fn Arena as Clone::clone props=A01,A03,A07
    requires self.wf(),
    ensures r.wf(), r.generation == self.generation, r.len == self.len, r.cap() == self.cap(),
        forall|i: int| #![trigger ent(r.m@, i)] ent_cloned(self.m@, r.m@, i),
@end
    proof {
        assert forall|i: int| 0 <= i < self.m@.len() implies (#[trigger] self.m@[i] is Free <==> __r.m@[i] is Free) by {
            assert(cloned(self.m@[i], __r.m@[i]));
        }
        assert forall|i: int| 0 <= i < self.m@.len() && (#[trigger] self.m@[i]) is Free implies self.m@[i]->Free_0 == __r.m@[i]->Free_0 by {
            assert(cloned(self.m@[i], __r.m@[i]));
        }
        lemma_fl_same(self.m@, __r.m@, self.freelist_root);
        lemma_cnt_same(self.m@, __r.m@);
    }
@@fn Arena as Clone::clone_from props=A01,A03,A07
    requires old(self).wf(), source.wf(),
    ensures final(self).wf(), final(self).generation == source.generation, final(self).len == source.len,
        final(self).cap() == (if source.cap() < old(self).cap() { old(self).cap() } else { source.cap() }),
        forall|i: int| #![trigger ent(final(self).m@, i)] ent_cloned(source.m@, final(self).m@, i),
@start
    let ghost mut m1: Seq<InternalEntry<P, T>> = Seq::empty();
@loop 0
    invariant
        self.m.wf(), source.wf(), $it.wf(), $it.current@ + $it.left() == source.m@.len() + 1,
        self.len == source.len, self.generation == source.generation, old_virt_cap == old(self).cap(),
        self.m@.len() == $it.current@ - 1,
        forall|i: int| #![trigger self.m@[i]] 0 <= i < self.m@.len() ==> match source.m@[i] {
            Free(x) => self.m@[i] == InternalEntry::<P, T>::Free(x),
            Allocated(g, u) => self.m@[i] is Allocated && self.m@[i]->Allocated_0 == g
                && cloned(u, self.m@[i]->Allocated_1),
        },
    ensures $it.left() == 0,
    decreases $it.left(),
@before 1
    proof {
        m1 = self.m@;
        lemma_fl_same(source.m@, m1, source.freelist_root);
        lemma_cnt_same(source.m@, m1);
    }
@loop 1
    invariant
        self.m.wf(), self.len == source.len, self.generation == source.generation, old_virt_cap == old(self).cap(),
        old(self).wf(), m1.len() == source.m@.len(),
        __e1 == old_virt_cap + 1, __i1 >= m1.len() + 2,
        self.m@.len() == __i1 - 2, __i1 <= __e1 || self.m@.len() == m1.len(),
        forall|i: int| #![trigger self.m@[i]] 0 <= i < m1.len() ==> self.m@[i] == m1[i],
        forall|i: int| #![trigger self.m@[i]] m1.len() <= i < self.m@.len() ==> self.m@[i] is Free && self.m@[i]->Free_0.ival() == i + 2,
    decreases __e1 - __i1,
@end
    proof {
        if source.cap() < old(self).cap() {
            lemma_fl_extend(m1, source.freelist_root, self.m@, self.freelist_root);
        } else {
            assert(self.m@ =~= m1);
        }
    }
@@end
