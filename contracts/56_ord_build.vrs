@@module ord_build ord/ord_arena.rs
@@text
use crate::chain_no_gen_arena::*;
use vstd::imap::*;
@@text props=O03,O05
broadcast use {ptr_axioms, ax_vec_len, ax_vec_cap, ax_nchain_vec, arena_lemmas};

/// the place of a node in the tree that is built by halving: the positions
/// `lo..=hi` are below it
pub struct Seat {
    pub lo: int,
    pub hi: int,
    pub par: Option<int>,
    pub lvl: int,
}

pub open spec fn mid(lo: int, hi: int) -> int {
    lo + (hi - lo + 1) / 2
}

pub open spec fn dec8(l: int) -> int {
    if l == 0 { 255 } else { l - 1 }
}

pub open spec fn seat(s: Seat, i: int) -> Seat
    decreases s.hi - s.lo + 1
{
    let m = mid(s.lo, s.hi);
    if i == m || s.hi < s.lo {
        s
    } else if i < m {
        seat(Seat { lo: s.lo, hi: m - 1, par: Some(m), lvl: dec8(s.lvl) }, i)
    } else {
        seat(Seat { lo: m + 1, hi: s.hi, par: Some(m), lvl: dec8(s.lvl) }, i)
    }
}

pub open spec fn left(s: Seat) -> Seat {
    let m = mid(s.lo, s.hi);
    Seat { lo: s.lo, hi: m - 1, par: Some(m), lvl: dec8(s.lvl) }
}

pub open spec fn right(s: Seat) -> Seat {
    let m = mid(s.lo, s.hi);
    Seat { lo: m + 1, hi: s.hi, par: Some(m), lvl: dec8(s.lvl) }
}

/// the seat of `i` is around it, and its children are seated below it
pub proof fn lemma_seat(s: Seat, i: int)
    requires s.lo <= i <= s.hi,
    ensures ({
            let x = seat(s, i);
            &&& s.lo <= x.lo <= i <= x.hi <= s.hi
            &&& mid(x.lo, x.hi) == i
            &&& x.lo < i ==> x.lo <= mid(x.lo, i - 1) < i && seat(s, mid(x.lo, i - 1)) == left(x)
            &&& i < x.hi ==> i < mid(i + 1, x.hi) <= x.hi && seat(s, mid(i + 1, x.hi)) == right(x)
        }),
    decreases s.hi - s.lo,
{
    let m = mid(s.lo, s.hi);
    if i == m {
        if s.lo < i { reveal_with_fuel(seat, 3); assert(mid(left(s).lo, left(s).hi) == mid(s.lo, i - 1)); }
        if i < s.hi { reveal_with_fuel(seat, 3); assert(mid(right(s).lo, right(s).hi) == mid(i + 1, s.hi)); }
    } else if i < m {
        lemma_seat(left(s), i);
    } else {
        lemma_seat(right(s), i);
    }
}

/// the seat of `i` is a child of that of its parent
pub open spec fn below(s: Seat, i: int) -> bool {
    let x = seat(s, i);
    let b = x.par.unwrap();
    let y = seat(s, b);
    &&& x.par is Some
    &&& s.lo <= b <= s.hi
    &&& i != b
    &&& i < b ==> y.lo < b && i == mid(y.lo, b - 1) && x == left(y)
    &&& b < i ==> b < y.hi && i == mid(b + 1, y.hi) && x == right(y)
}

pub proof fn lemma_below(s: Seat, i: int)
    requires s.lo <= i <= s.hi,
    ensures i == mid(s.lo, s.hi) ==> seat(s, i) == s, i != mid(s.lo, s.hi) ==> below(s, i),
    decreases s.hi - s.lo,
{
    let m = mid(s.lo, s.hi);
    if i != m {
        let c = if i < m { left(s) } else { right(s) };
        lemma_below(c, i);
        lemma_seat(c, i);
        assert(seat(s, m) == s);
        if i != mid(c.lo, c.hi) {
            let b = seat(c, i).par.unwrap();
            assert(seat(s, b) == seat(c, b));
        }
    }
}

/// the rank of a node with `n` nodes at and below it
pub open spec fn built_rank(n: int, lvl: int) -> int {
    if n == 1 { 1 } else if n == 2 { 2 } else if n == 3 || n == 4 { 3 } else { lvl }
}

pub open spec fn srank(s: Seat) -> int {
    if s.hi < s.lo { 0 } else { built_rank(s.hi - s.lo + 1, s.lvl) }
}

/// the level fits to the number of nodes
pub open spec fn level(n: int, lvl: int) -> bool {
    n >= 5 ==> 3 <= lvl && p2(lvl - 2) - 1 <= n <= p2(lvl - 1) + 1
}

pub proof fn lemma_level(s: Seat)
    requires s.lo <= s.hi, level(s.hi - s.lo + 1, s.lvl),
    ensures level(left(s).hi - left(s).lo + 1, left(s).lvl), level(right(s).hi - right(s).lo + 1, right(s).lvl),
        srank(left(s)) + 1 <= srank(s) <= srank(left(s)) + 2,
        srank(right(s)) + 1 <= srank(s) <= srank(right(s)) + 2,
        s.lo == s.hi ==> srank(s) == 1,
{
    let n = s.hi - s.lo + 1;
    let a = left(s).hi - left(s).lo + 1;
    let b = right(s).hi - right(s).lo + 1;
    assert(a == n / 2 && b == (n - 1) / 2);
    if n >= 5 {
        let l = s.lvl;
        assert(p2(l - 1) == 2 * p2(l - 2));
        assert(p2(l - 2) == 2 * p2(l - 3));
        if n <= 10 {
            assert(p2(0) == 1);
            assert(p2(1) == 2) by { reveal_with_fuel(p2, 3); }
            assert(p2(2) == 4) by { reveal_with_fuel(p2, 4); }
            assert(p2(3) == 8) by { reveal_with_fuel(p2, 5); }
            assert(p2(4) == 16) by { reveal_with_fuel(p2, 6); }
            if l >= 6 { lemma_p2_mono(4, l - 2); }
        } else if l <= 4 {
            lemma_p2_mono(l - 1, 3);
            assert(p2(3) == 8) by { reveal_with_fuel(p2, 5); }
        }
    }
}

/// all levels fit
pub proof fn lemma_levels(s: Seat, i: int)
    requires s.lo <= i <= s.hi, level(s.hi - s.lo + 1, s.lvl),
    ensures level(seat(s, i).hi - seat(s, i).lo + 1, seat(s, i).lvl),
    decreases s.hi - s.lo,
{
    lemma_level(s);
    let m = mid(s.lo, s.hi);
    if i != m {
        lemma_levels(if i < m { left(s) } else { right(s) }, i);
    }
}

pub open spec fn at_inx<P: Ptr>(k: Option<int>) -> Option<P::Inx> {
    match k { Some(j) => Some(<P::Inx as PtrInx>::simk(j)), None => None }
}

/// the left child of `q`, if it is after `i`
pub open spec fn seat_l(s: Seat, q: int, i: int) -> Option<int> {
    let x = seat(s, q);
    if x.lo < q && mid(x.lo, q - 1) > i { Some(mid(x.lo, q - 1)) } else { None }
}

pub open spec fn seat_r(s: Seat, q: int, i: int) -> Option<int> {
    let x = seat(s, q);
    if q < x.hi && mid(q + 1, x.hi) > i { Some(mid(q + 1, x.hi)) } else { None }
}

/// the node at `q` is built as far as the nodes after `i` matter
pub open spec fn built_at<P: Ptr>(t: IMap<P::Inx, TN<P::Inx>>, s: Seat, q: int, i: int) -> bool {
    let x = t[<P::Inx as PtrInx>::simk(q)];
    &&& t.dom().contains(<P::Inx as PtrInx>::simk(q))
    &&& x.l == at_inx::<P>(seat_l(s, q, i))
    &&& x.r == at_inx::<P>(seat_r(s, q, i))
    &&& q > i ==> x.back == at_inx::<P>(seat(s, q).par) && x.rank == srank(seat(s, q))
}

pub open spec fn built<P: Ptr>(t: IMap<P::Inx, TN<P::Inx>>, s: Seat, i: int) -> bool {
    &&& forall|q: int| 1 <= q <= s.hi ==> #[trigger] built_at::<P>(t, s, q, i)
    &&& forall|p: P::Inx| #[trigger] t.dom().contains(p) ==> p.ival() <= s.hi
}

/// the positions in their order
pub open spec fn counting<P: Ptr>(n: int) -> Seq<P::Inx> {
    Seq::new(n as nat, |k: int| <P::Inx as PtrInx>::simk(k + 1))
}

pub open spec fn top(n: int, lvl: int) -> Seat {
    Seat { lo: 1, hi: n, par: None, lvl }
}

pub proof fn lemma_mid(lo: int, hi: int)
    requires lo <= hi,
    ensures lo <= mid(lo, hi) <= hi,
{
}

pub proof fn lemma_built_rank<P: Ptr>(t: IMap<P::Inx, TN<P::Inx>>, n: int, lvl: int, p: P::Inx)
    requires built::<P>(t, top(n, lvl), 0), 1 <= n <= <P::Inx as PtrInx>::maxi(), level(n, lvl), t.dom().contains(p),
    ensures r_ok(t, p),
{
    hide(seat); hide(level); hide(p2); hide(built_rank);
    let s = top(n, lvl);
    let q = p.ival();
    assert(built_at::<P>(t, s, q, 0));
    lemma_seat(s, q);
    lemma_levels(s, q);
    let x = seat(s, q);
    lemma_level(x);
    if x.lo < q { assert(built_at::<P>(t, s, mid(x.lo, q - 1), 0)); }
    if q < x.hi { assert(built_at::<P>(t, s, mid(q + 1, x.hi), 0)); }
}

/// the nodes got their neighbors from halving
pub proof fn lemma_built<P: Ptr>(t: IMap<P::Inx, TN<P::Inx>>, root: P::Inx, n: int, lvl: int) -> (g: IMap<P::Inx, IV>)
    requires built::<P>(t, top(n, lvl), 0), 1 <= n <= <P::Inx as PtrInx>::maxi(), level(n, lvl), root == <P::Inx as PtrInx>::simk(mid(1, n)),
    ensures t_ok(t, root, g, counting::<P>(n)), r_all(t),
{
    hide(seat); hide(level); hide(p2); hide(built_rank); hide(r_ok);
    lemma_mid(1, n);
    let s = top(n, lvl);
    let ord = counting::<P>(n);
    let g = IMap::<P::Inx, IV>::new(|q: P::Inx| true, |q: P::Inx| IV { lo: seat(s, q.ival()).lo - 1, at: q.ival() - 1, hi: seat(s, q.ival()).hi });
    assert forall|p: P::Inx| t.dom().contains(p) implies #[trigger] n_ok(t, root, g, ord, p) by {
        let q = p.ival();
        assert(built_at::<P>(t, s, q, 0));
        lemma_seat(s, q);
        lemma_below(s, q);
        let x = seat(s, q);
        if x.lo < q { assert(built_at::<P>(t, s, mid(x.lo, q - 1), 0)); lemma_seat(s, mid(x.lo, q - 1)); }
        if q < x.hi { assert(built_at::<P>(t, s, mid(q + 1, x.hi), 0)); lemma_seat(s, mid(q + 1, x.hi)); }
        assert(n_i(g, ord, p));
        assert(n_l(t, g, p));
        assert(n_r(t, g, p));
        if q != mid(1, n) { let b = x.par.unwrap(); assert(built_at::<P>(t, s, b, 0)); lemma_seat(s, b); }
        assert(n_b(t, root, g, n, p));
    }
    assert forall|p: P::Inx| t.dom().contains(p) implies #[trigger] r_ok(t, p) by { lemma_built_rank::<P>(t, n, lvl, p); }
    assert forall|k: int| 0 <= k < ord.len() implies #[trigger] k_ok(t, g, ord, k) by { assert(built_at::<P>(t, s, k + 1, 0)); }
    assert(built_at::<P>(t, s, mid(1, n), 0));
    lemma_below(s, mid(1, n));
    g
}

/// what seating `i` changes
pub proof fn lemma_build<P: Ptr>(t: IMap<P::Inx, TN<P::Inx>>, u: IMap<P::Inx, TN<P::Inx>>, s: Seat, i: int)
    requires built::<P>(t, s, i), s.lo == 1, s.par is None, 1 <= i <= s.hi <= <P::Inx as PtrInx>::maxi(), u.dom() == t.dom(),
        ({
            let p = <P::Inx as PtrInx>::simk(i);
            let x = seat(s, i);
            &&& u[p].back == at_inx::<P>(x.par) && u[p].rank == srank(x) && u[p].l == t[p].l && u[p].r == t[p].r
            &&& x.par is Some ==> ({
                let b = <P::Inx as PtrInx>::simk(x.par.unwrap());
                u[b] == (if i < x.par.unwrap() { TN { l: Some(p), ..t[b] } } else { TN { r: Some(p), ..t[b] } })
            })
            &&& forall|q: P::Inx| #![trigger u[q]] t.dom().contains(q) && q != p && !(x.par is Some && q == <P::Inx as PtrInx>::simk(x.par.unwrap())) ==> u[q] == t[q]
        }),
    ensures built::<P>(u, s, i - 1),
{
    hide(seat);
    let p = <P::Inx as PtrInx>::simk(i);
    let x = seat(s, i);
    lemma_seat(s, i);
    lemma_below(s, i);
    assert(built_at::<P>(t, s, i, i));
    if x.par is Some { assert(built_at::<P>(t, s, x.par.unwrap(), i)); lemma_seat(s, x.par.unwrap()); }
    assert forall|q: int| 1 <= q <= s.hi implies #[trigger] built_at::<P>(u, s, q, i - 1) by {
        assert(built_at::<P>(t, s, q, i));
        lemma_seat(s, q);
        let y = u[<P::Inx as PtrInx>::simk(q)];
        assert(<P::Inx as PtrInx>::simk(q).ival() == q);
        if q != i && x.par != Some(q) {
            assert(y == t[<P::Inx as PtrInx>::simk(q)]);
        }
    }
}
@@text props=O03,O05
pub assume_specification [usize::next_power_of_two] (x: usize) -> (r: usize)
    requires x <= 0x8000_0000_0000_0000,
    ensures exists|k: int| 0 <= k < 64 && r == #[trigger] p2(k) && x <= r && (k > 0 ==> p2(k - 1) < x);
pub assume_specification [usize::trailing_zeros] (x: usize) -> (r: u32)
    ensures forall|k: int| 0 <= k < 64 && x == #[trigger] p2(k) ==> r == k;

/// the arena is compressed, in the order of the positions
pub open spec fn packed<P: Ptr, K, V>(a: OrdChain<P, K, V>) -> bool {
    &&& a.wf()
    &&& 1 <= a.a.len <= <P::Inx as PtrInx>::maxi()
    &&& ch_ok(a, counting::<P>(a.a.len as int))
    &&& forall|p: P::Inx| #[trigger] a.live(p) ==> p.ival() <= a.a.len && nd(a, p).p_tree0 is None && nd(a, p).p_tree1 is None
}
pub open spec fn opt_int(k: Option<usize>) -> Option<int> {
    match k { Some(j) => Some(j as int), None => None }
}

pub proof fn lemma_step(s: Seat, i: int)
    requires s.lo <= i <= s.hi,
    ensures s.lo <= mid(s.lo, s.hi) <= s.hi, seat(s, i) == (if i == mid(s.lo, s.hi) { s } else if i < mid(s.lo, s.hi) { seat(left(s), i) } else { seat(right(s), i) }),
{
}

pub proof fn lemma_start<P: Ptr, K, V>(a: OrdChain<P, K, V>, n: int, lvl: int)
    requires packed(a), n == a.a.len,
    ensures built::<P>(tv(a), top(n, lvl), n),
{
    let s = top(n, lvl);
    assert forall|q: int| 1 <= q <= n implies #[trigger] built_at::<P>(tv(a), s, q, n) by {
        assert(ck_ok(a, counting::<P>(n), q - 1));
        lemma_seat(s, q);
    }
}

pub proof fn lemma_has<P: Ptr, K, V>(a: OrdChain<P, K, V>, s: Seat, q: int, i: int)
    requires built::<P>(tv(a), s, i), 1 <= q <= s.hi <= <P::Inx as PtrInx>::maxi(),
    ensures a.live(<P::Inx as PtrInx>::simk(q)), a.a.at(q) is Some,
{
    assert(built_at::<P>(tv(a), s, q, i));
    let p = <P::Inx as PtrInx>::simk(q);
    assert(p.ival() == q);
}

/// the level of the root
pub proof fn lemma_top(n: int, k: int)
    requires n >= 1, 0 <= k < 64, n - 1 <= p2(k), k > 0 ==> p2(k - 1) < n - 1,
    ensures level(n, k + 1),
{
    if n >= 5 {
        if k <= 1 { lemma_p2_mono(k, 1); assert(p2(1) == 2) by { reveal_with_fuel(p2, 3); } }
    }
}
@@fn OrdArena::raw_rebalance_assuming_compressed props=O01,O03,O05
@attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
    requires packed(old(self).a),
    ensures final(self).wf(), final(self).order() == counting::<P>(old(self).a.a.len as int), kv_same(old(self).a, final(self).a),
@start
    hide(seat); hide(built_at);
    let ghost o = *self;
    let ghost n = self.a.a.len as int;
    let ghost ord = counting::<P>(n);
@before 0
    let ghost s = top(n, root_rank as int);
    proof { lemma_start(o.a, n, root_rank as int); }
@loop 0
    invariant_except_break
        1 <= i@ <= n, built::<P>(tv(self.a), s, i@ as int), i@ < mid(1, n) ==> self.root == <P::Inx as PtrInx>::simk(mid(1, n)),
    invariant
        packed(o.a), n == o.a.a.len, s == top(n, root_rank as int), level(n, root_rank as int),
        self.first == ord[0], self.last == ord.last(), ord == counting::<P>(n),
        kv_same(o.a, self.a), self.a.wf(),
    ensures built::<P>(tv(self.a), s, 0), self.root == <P::Inx as PtrInx>::simk(mid(1, n)),
    decreases i@,
@body 0
    let ghost t0 = tv(self.a);
    let ghost a0 = self.a;
    let ghost r0 = self.root;
@loop 1
    invariant_except_break
        self.a == a0, self.root == r0, t0 == tv(self.a),
        1 <= subtree_first <= i@ <= subtree_last <= n,
        last_subtree_mid is Some ==> 1 <= last_subtree_mid.unwrap() <= n,
        seat(s, i@ as int) == seat(Seat { lo: subtree_first as int, hi: subtree_last as int, par: opt_int(last_subtree_mid), lvl: lvl as int }, i@ as int),
    invariant
        packed(o.a), n == o.a.a.len, s == top(n, root_rank as int), kv_same(o.a, self.a), self.a.wf(),
        1 <= i@ <= n, p == <P::Inx as PtrInx>::simk(i@ as int), built::<P>(t0, s, i@ as int),
        self.first == ord[0], self.last == ord.last(),
    ensures
        built::<P>(tv(self.a), s, i@ - 1), self.root == (if i@ == mid(1, n) { <P::Inx as PtrInx>::simk(mid(1, n)) } else { r0 }),
    decreases subtree_last - subtree_first,
@body 1
    proof {
        let w = (subtree_last - subtree_first + 1) as usize;
        assert(w >> 1u32 == w / 2) by (bit_vector);
        lemma_has(self.a, s, i@ as int, i@ as int);
        lemma_below(s, i@ as int);
        lemma_seat(s, i@ as int);
        if seat(s, i@ as int).par is Some { lemma_has(self.a, s, seat(s, i@ as int).par.unwrap(), i@ as int); }
        lemma_step(Seat { lo: subtree_first as int, hi: subtree_last as int, par: opt_int(last_subtree_mid), lvl: lvl as int }, i@ as int); }
@break 1
    proof {
        lemma_seat(s, i@ as int);
        lemma_below(s, i@ as int);
        assert forall|q: P::Inx| tv(self.a).dom().contains(q) <==> t0.dom().contains(q) by { let _ = ent(self.a.a.m@, q.ival()); let _ = ent(a0.a.m@, q.ival()); }
        assert(tv(self.a).dom() =~= t0.dom());
        lemma_build::<P>(t0, tv(self.a), s, i@ as int);
    }
@end
    proof {
        let g = lemma_built::<P>(tv(self.a), self.root, n, root_rank as int);
        assert forall|k: int| 0 <= k < ord.len() implies #[trigger] ck_ok(self.a, ord, k) by { assert(ck_ok(o.a, ord, k)); assert(kv_at(o.a.a.m@, self.a.a.m@, ord[k].ival())); }
        assert(self.ok(g, ord));
        lemma_order(*self, g, ord);
    }
@@text props=O05,A06
/// `f` was called with the key and a reference to the value
#[verifier::prophetic]
pub open spec fn called4<P: Ptr, K, V, F: Fn(P, &K, &mut V, P)>(f: F, p: P, k: K, v0: V, v1: V, q: P) -> bool {
    exists|x: &mut V| *x == v0 && *final(x) == v1 && #[trigger] f.ensures((p, &k, x, q), ())
}

pub open spec fn callable4<P: Ptr, K, V, F: Fn(P, &K, &mut V, P)>(f: &F) -> bool {
    forall|p: P, k: &K, v: &mut V, q: P| (*f).requires((p, k, v, q))
}

#[verifier::prophetic]
pub open spec fn called4r<P: Ptr, K, V, F: Fn(P, &K, &mut V, P)>(f: &F, p: P, k: K, v0: V, v1: V, q: P) -> bool {
    called4(*f, p, k, v0, v1, q)
}

/// `f` does not change the value
#[verifier::prophetic]
pub open spec fn leaves<P: Ptr, K, V, F: Fn(P, &K, &mut V, P)>(f: F) -> bool {
    forall|p: P, k: &K, x: &mut V, q: P| #[trigger] f.ensures((p, k, x, q), ()) ==> *final(x) == *x
}

/// the entry at place `k` of the order has got the next free position
#[verifier::prophetic]
pub open spec fn repacked<P: Ptr, K, V, F: Fn(P, &K, &mut V, P)>(map: F, o: OrdArena<P, K, V>, n: OrdArena<P, K, V>, k: int) -> bool {
    let a = o.order()[k];
    let b = n.order()[k];
    let q = P::smk(b, n.a.a.generation);
    &&& b.ival() == k + 1 && n.has(q) && n.key(b) == o.key(a)
    &&& called4(map, P::smk(a, o.gen_at(a)), o.key(a), o.value(a), n.value(b), q)
}

/// what the closure of the compression does with a node
#[verifier::prophetic]
pub open spec fn cuts<P: Ptr, K, V, F: Fn(P, &K, &mut V, P), G: Fn(P, &mut Node<P, K, V>, P)>(f: F, c: G) -> bool {
    forall|p: P, x: &mut Node<P, K, V>, q: P| #[trigger] c.ensures((p, x, q), ()) ==> final(x).p_tree0 is None && final(x).p_tree1 is None && final(x).k == x.k && called4(f, p, x.k, x.v, final(x).v, q)
}

/// the chain of the order is all there is
pub proof fn lemma_whole<P: Ptr, K, V>(o: OrdArena<P, K, V>)
    requires o.tree(), o.order().len() > 0,
    ensures nis_chain(o.a, o.order()), o.order().len() == o.a.a.len, o.a.pv(o.order()[0]) is None,
{
    let s = o.order();
    lemma_wit(o);
    assert forall|k: int| 0 <= k < s.len() implies o.a.live(#[trigger] s[k]) by { lemma_pos(o, k); }
    assert forall|k: int| #![trigger s[k]] 0 <= k < s.len() - 1 implies o.a.nx(s[k]) == Some(s[k + 1]) by { lemma_pos(o, k); }
    assert forall|j: int, k: int| #![trigger s[j], s[k]] 0 <= j < k < s.len() implies nidx(s[j]) != nidx(s[k]) by { lemma_pos(o, j); lemma_pos(o, k); let _ = (s[j].ival(), s[k].ival()); }
    lemma_pos(o, 0);
    lemma_pos(o, s.len() - 1);
}

/// the compressed chain is in the order of the positions
pub proof fn lemma_packed<P: Ptr, K, V, F: Fn(P, &K, &mut V, P), G: Fn(P, &mut Node<P, K, V>, P)>(map: F, c: G, o: OrdArena<P, K, V>, n: OrdChain<P, K, V>, f: Map<int, P>, b: Map<int, int>)
    requires o.tree(), o.order().len() > 0, cuts(map, c), n.wf(), n.a.len == o.a.a.len, n.a.cap() == n.a.len, nrenumbered(c, o.a.a.m@, n.a.m@, f, b, n.a.generation), numbered(f, o.order()),
        o.a.a.len <= <P::Inx as PtrInx>::maxi(),
    ensures packed(n),
        forall|k: int| 0 <= k < o.order().len() ==> #[trigger] packed_at(map, o, n, k),
{
    let s = o.order();
    let ord = counting::<P>(n.a.len as int);
    lemma_wit(o);
    assert forall|k: int| #![trigger ck_ok(n, ord, k)] #![trigger packed_at(map, o, n, k)] 0 <= k < s.len() implies ck_ok(n, ord, k) && packed_at(map, o, n, k) && nd(n, ord[k]).p_tree0 is None && nd(n, ord[k]).p_tree1 is None by {
        lemma_pos(o, k);
        let i = s[k].ival();
        assert(ent(o.a.a.m@, i) is Some);
        assert(f.dom().contains(i));
        assert(nmoved_link(c, o.a.a.m@, n.a.m@, f, n.a.generation, i, false, false));
        assert(ord[k].ival() == k + 1);
        assert(f[i].sinx().ival() == k + 1);
        if k > 0 { lemma_pos(o, k - 1); assert(f[s[k - 1].ival()].sinx().ival() == k); assert(ord[k - 1].ival() == k); }
        if k < s.len() - 1 { lemma_pos(o, k + 1); assert(f[s[k + 1].ival()].sinx().ival() == k + 2); assert(ord[k + 1].ival() == k + 2); }
    }
    assert forall|p: P::Inx| #[trigger] n.live(p) implies p.ival() <= n.a.len && nd(n, p).p_tree0 is None && nd(n, p).p_tree1 is None by {
        let _ = ent(n.a.m@, p.ival());
        assert(ck_ok(n, ord, p.ival() - 1));
    }
}

#[verifier::prophetic]
pub open spec fn packed_at<P: Ptr, K, V, F: Fn(P, &K, &mut V, P)>(map: F, o: OrdArena<P, K, V>, n: OrdChain<P, K, V>, k: int) -> bool {
    let a = o.order()[k];
    let b = <P::Inx as PtrInx>::simk(k + 1);
    let q = P::smk(b, n.a.generation);
    &&& n.has(q) && nd(n, b).k == o.key(a)
    &&& called4(map, P::smk(a, o.gen_at(a)), o.key(a), o.value(a), nd(n, b).v, q)
}
#[verifier::prophetic]
pub open spec fn all_repacked<P: Ptr, K, V, F: Fn(P, &K, &mut V, P)>(map: F, o: OrdArena<P, K, V>, n: OrdArena<P, K, V>) -> bool {
    forall|k: int| 0 <= k < o.order().len() ==> #[trigger] repacked(map, o, n, k)
}

/// the same keys and values in the same order
pub open spec fn same_list<P: Ptr, K, V>(o: OrdArena<P, K, V>, n: OrdArena<P, K, V>) -> bool {
    &&& n.order().len() == o.order().len()
    &&& forall|k: int| 0 <= k < o.order().len() ==> #[trigger] same_pair(o, n, k)
}

pub open spec fn same_pair<P: Ptr, K, V>(o: OrdArena<P, K, V>, n: OrdArena<P, K, V>, k: int) -> bool {
    n.key(n.order()[k]) == o.key(o.order()[k]) && n.value(n.order()[k]) == o.value(o.order()[k])
}

pub proof fn lemma_same_list<P: Ptr, K, V, F: Fn(P, &K, &mut V, P)>(map: F, o: OrdArena<P, K, V>, n: OrdArena<P, K, V>)
    requires all_repacked(map, o, n), n.order().len() == o.order().len(),
    ensures leaves(map) ==> same_list(o, n),
{
    if leaves(map) {
        assert forall|k: int| 0 <= k < o.order().len() implies #[trigger] same_pair(o, n, k) by { assert(repacked(map, o, n, k)); }
    }
}

pub proof fn lemma_kv_refl<P: Ptr, K, V>(a: OrdChain<P, K, V>)
    ensures kv_same(a, a),
{
}

pub proof fn lemma_repacked<P: Ptr, K, V, F: Fn(P, &K, &mut V, P)>(map: F, o: OrdArena<P, K, V>, m: OrdChain<P, K, V>, n: OrdArena<P, K, V>)
    requires forall|k: int| 0 <= k < o.order().len() ==> #[trigger] packed_at(map, o, m, k), kv_same(m, n.a), n.order() == counting::<P>(o.order().len() as int), o.order().len() <= <P::Inx as PtrInx>::maxi(),
    ensures all_repacked(map, o, n), leaves(map) ==> same_list(o, n), n.a.keep(m),
{
    assert forall|k: int| 0 <= k < o.order().len() implies #[trigger] repacked(map, o, n, k) by {
        assert(packed_at(map, o, m, k));
        assert(kv_at(m.a.m@, n.a.a.m@, k + 1));
        let _ = ent(n.a.a.m@, k + 1);
    }
    lemma_same_list(map, o, n);
}

@@fn OrdArena::compress_and_shrink_with props=O01,O03,O05,A04,A06
    requires old(self).wf(), forall|p: P, k: &K, v: &mut V, q: P| map.requires((p, k, v, q)),
    ensures final(self).wf(), final(self).order() == counting::<P>(old(self).order().len() as int), final(self).a.a.len == old(self).a.a.len, final(self).a.a.cap() == old(self).a.a.len,
        final(self).a.a.gen() == old(self).a.a.gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int }),
        all_repacked(map, *old(self), *final(self)), leaves(map) ==> same_list(*old(self), *final(self)),
@hoist 0
    cut P; &mut Node<P, K, V>; P
@closure 0
    requires callable4(&map)
    ensures final($1).p_tree0 is None, final($1).p_tree1 is None, final($1).k == old($1).k, called4r(&map, $0, old($1).k, old($1).v, final($1).v, $2)
@start
    hide(t_ok); hide(r_all); hide(nrenumbered); hide(nis_chain); hide(numbered); hide(packed); hide(packed_at); hide(all_repacked); hide(same_list); hide(leaves); hide(kv_same);
    let ghost o = *self;
    proof { lemma_wit(o); if o.order().len() > 0 { lemma_whole(o); } }
@pre compress_and_shrink_acyclic_chain_with 0
    proof { assert(cuts(map, cut)); }
@at compress_and_shrink_acyclic_chain_with 0
    let ghost m = self.a;
    proof {
        let (f, b) = choose|f: Map<int, P>, b: Map<int, int>| #[trigger] nrenumbered(cut, o.a.a.m@, self.a.a.m@, f, b, self.a.a.generation)
            && forall|full: Seq<P::Inx>| #[trigger] nis_chain(o.a, full) && full[0] == min.sinx() && full.len() == o.a.a.len ==> numbered(f, full);
        lemma_packed(map, cut, o, self.a, f, b);
    }
@at raw_rebalance_assuming_compressed 0
    proof { lemma_repacked(map, o, m, *self); }
@at clear_and_shrink 0
    proof {
        lemma_none(*self);
        assert(counting::<P>(0) =~= Seq::<P::Inx>::empty());
        lemma_kv_refl(self.a);
        lemma_repacked(map, o, self.a, *self);
    }
@@fn OrdArena::compress_and_shrink props=O01,O03,O05,A04,A06
    requires old(self).wf(),
    ensures final(self).wf(), final(self).order() == counting::<P>(old(self).order().len() as int), final(self).a.a.len == old(self).a.a.len, final(self).a.a.cap() == old(self).a.a.len,
        final(self).a.a.gen() == old(self).a.a.gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int }),
        same_list(*old(self), *final(self)),
@closure 0
    ensures *final($2) == *old($2)
@@text props=O05
/// a sorted list stays sorted
pub proof fn lemma_sorted_list<P: Ptr, K: Ord, V>(o: OrdArena<P, K, V>, n: OrdArena<P, K, V>)
    requires o.sorted(), same_list(o, n),
    ensures n.sorted(),
{
    let s = n.order();
    let t = o.order();
    assert forall|a: int, b: int| #![trigger s[a], s[b]] 0 <= a <= b < s.len() implies kle(n.key(s[a]), n.key(s[b])) by {
        assert(same_pair(o, n, a) && same_pair(o, n, b));
        assert(kle(o.key(t[a]), o.key(t[b])));
    }
}
