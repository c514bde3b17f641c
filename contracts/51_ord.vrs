@@module ord_spec ord/ord_arena.rs
@@text
broadcast use {ptr_axioms, ax_vec_len, ax_vec_cap, ax_nchain_vec, arena_lemmas};
@@type Node
#[verifier::reject_recursive_types(P)]
@@type OrdArena
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
@@text props=O01,O02,O03,O04,O05
use vstd::imap::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
pub type NodeEnt<P, K, V> = InternalEntry<P, LinkNoGen<P, Node<P, K, V>>>;
pub type OrdChain<P, K, V> = ChainNoGenArena<P, Node<P, K, V>>;

pub open spec fn tn<P: Ptr, K, V>(n: Node<P, K, V>) -> TN<P::Inx> {
    TN { back: n.p_back, l: n.p_tree0, r: n.p_tree1, rank: n.rank as int }
}

/// the tree part of all nodes
pub open spec fn tv<P: Ptr, K, V>(a: OrdChain<P, K, V>) -> IMap<P::Inx, TN<P::Inx>> {
    IMap::new(|q: P::Inx| a.live(q), |q: P::Inx| tn(a.a.at(q.ival()).unwrap().1.t))
}

/// the node at `p`
pub open spec fn nd<P: Ptr, K, V>(a: OrdChain<P, K, V>, p: P::Inx) -> Node<P, K, V> {
    a.a.at(p.ival()).unwrap().1.t
}

/// the links of the node at position `k` are its neighbors in `ord`
pub open spec fn ck_ok<P: Ptr, K, V>(a: OrdChain<P, K, V>, ord: Seq<P::Inx>, k: int) -> bool {
    &&& a.live(ord[k])
    &&& a.pv(ord[k]) == (if k == 0 { None } else { Some(ord[k - 1]) })
    &&& a.nx(ord[k]) == (if k == ord.len() - 1 { None } else { Some(ord[k + 1]) })
}

pub open spec fn ch_ok<P: Ptr, K, V>(a: OrdChain<P, K, V>, ord: Seq<P::Inx>) -> bool {
    forall|k: int| 0 <= k < ord.len() ==> #[trigger] ck_ok(a, ord, k)
}

/// what an entry at `j` has besides its place in the tree is the same
pub open spec fn kv_at<P: Ptr, K, V>(o: Seq<NodeEnt<P, K, V>>, n: Seq<NodeEnt<P, K, V>>, j: int) -> bool {
    match (ent(o, j), ent(n, j)) {
        (None, None) => true,
        (Some((g, l)), Some((h, m))) => g == h && l.prev_next == m.prev_next && l.t.k == m.t.k && l.t.v == m.t.v,
        _ => false,
    }
}

/// only the tree changed
pub open spec fn kv_same<P: Ptr, K, V>(o: OrdChain<P, K, V>, n: OrdChain<P, K, V>) -> bool {
    &&& n.keep(o)
    &&& forall|j: int| #![trigger ent(n.a.m@, j)] kv_at(o.a.m@, n.a.m@, j)
}

/// `a` is not greater than `b`
pub open spec fn kle<K: Ord>(a: K, b: K) -> bool {
    a.cmp_spec(&b) != Ordering::Greater
}

/// the comparison of keys is a total order
pub open spec fn ord_law<K: Ord>() -> bool {
    &&& K::obeys_cmp_spec()
    &&& forall|a: K, b: K| #![trigger a.cmp_spec(&b)] (a.cmp_spec(&b) == Ordering::Less) == (b.cmp_spec(&a) == Ordering::Greater)
    &&& forall|a: K, b: K, c: K| #![trigger kle(a, b), kle(b, c)] kle(a, b) && kle(b, c) ==> kle(a, c)
}

impl<P: Ptr, K, V> OrdArena<P, K, V> {
    /// `g` and `ord` show that the nodes form a search tree, for the order
    /// given by the single chain
    pub open spec fn ok(self, g: IMap<P::Inx, IV>, ord: Seq<P::Inx>) -> bool {
        &&& self.a.wf()
        &&& ord.len() == self.a.a.len
        &&& t_ok(tv(self.a), self.root, g, ord)
        &&& ch_ok(self.a, ord)
        &&& ord.len() > 0 ==> self.first == ord[0] && self.last == ord.last()
    }

    pub open spec fn okx(self, ord: Seq<P::Inx>) -> bool {
        exists|g: IMap<P::Inx, IV>| #[trigger] self.ok(g, ord)
    }

    pub open spec fn tree(self) -> bool {
        exists|ord: Seq<P::Inx>| #[trigger] self.okx(ord)
    }

    /// The data structure invariant: a search tree that is balanced by its ranks
    pub open spec fn wf(self) -> bool {
        self.tree() && r_all(tv(self.a))
    }

    /// the positions of the entries, least first
    pub open spec fn order(self) -> Seq<P::Inx> {
        choose|ord: Seq<P::Inx>| #[trigger] self.okx(ord)
    }

    /// the position of `p` in the order
    pub open spec fn pos(self, p: P::Inx) -> int {
        wit(self)[p].at
    }

    pub open spec fn has(self, p: P) -> bool {
        self.a.has(p)
    }

    pub open spec fn key(self, p: P::Inx) -> K {
        nd(self.a, p).k
    }

    pub open spec fn value(self, p: P::Inx) -> V {
        nd(self.a, p).v
    }

    /// the generation of the entry at `p`
    pub open spec fn gen_at(self, p: P::Inx) -> P::Gen {
        self.a.a.at(p.ival()).unwrap().0
    }

    /// the entry at `j` has the same pointer, key and value
    pub open spec fn same_at(self, o: Self, j: P::Inx) -> bool {
        &&& self.a.live(j) == o.a.live(j)
        &&& self.a.live(j) ==> self.gen_at(j) == o.gen_at(j) && self.key(j) == o.key(j) && self.value(j) == o.value(j)
    }

    /// all entries but that at `e` have the same pointer, key and value
    pub open spec fn same_but(self, o: Self, e: P::Inx) -> bool {
        forall|j: P::Inx| j != e ==> #[trigger] self.same_at(o, j)
    }

    pub open spec fn same(self, o: Self) -> bool {
        forall|j: P::Inx| #[trigger] self.same_at(o, j)
    }
}

impl<P: Ptr, K: Ord, V> OrdArena<P, K, V> {
    /// the keys are in order
    pub open spec fn sorted(self) -> bool {
        let s = self.order();
        forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i <= j < s.len() ==> kle(self.key(s[i]), self.key(s[j]))
    }
}

/// the order is determined by the chain
pub proof fn lemma_order_unique<P: Ptr, K, V>(o: OrdArena<P, K, V>, g: IMap<P::Inx, IV>, ord: Seq<P::Inx>, g2: IMap<P::Inx, IV>, ord2: Seq<P::Inx>)
    requires o.ok(g, ord), o.ok(g2, ord2),
    ensures ord == ord2,
{
    hide(t_ok);
    assert forall|k: int| 0 <= k < ord.len() implies ord[k] == ord2[k] by { lemma_order_at(o, g, ord, g2, ord2, k); }
    assert(ord =~= ord2);
}

pub proof fn lemma_order_at<P: Ptr, K, V>(o: OrdArena<P, K, V>, g: IMap<P::Inx, IV>, ord: Seq<P::Inx>, g2: IMap<P::Inx, IV>, ord2: Seq<P::Inx>, k: int)
    requires o.ok(g, ord), o.ok(g2, ord2), 0 <= k < ord.len(),
    ensures ord[k] == ord2[k],
    decreases k,
{
    hide(t_ok);
    if k > 0 {
        lemma_order_at(o, g, ord, g2, ord2, k - 1);
        assert(ck_ok(o.a, ord, k - 1));
        assert(ck_ok(o.a, ord2, k - 1));
    }
}

pub proof fn lemma_order<P: Ptr, K, V>(o: OrdArena<P, K, V>, g: IMap<P::Inx, IV>, ord: Seq<P::Inx>)
    requires o.ok(g, ord),
    ensures o.tree(), o.order() == ord,
{
    let ord2 = o.order();
    assert(o.okx(ord));
    let h = choose|h: IMap<P::Inx, IV>| #[trigger] o.ok(h, ord2);
    lemma_order_unique(o, g, ord, h, ord2);
}

/// a witness of the invariant
pub open spec fn wit<P: Ptr, K, V>(o: OrdArena<P, K, V>) -> IMap<P::Inx, IV> {
    choose|g: IMap<P::Inx, IV>| #[trigger] o.ok(g, o.order())
}

pub proof fn lemma_wit<P: Ptr, K, V>(o: OrdArena<P, K, V>)
    requires o.tree(),
    ensures o.ok(wit(o), o.order()), o.a.wf(), o.order().len() == o.a.a.len,
{
    let ord = choose|ord: Seq<P::Inx>| #[trigger] o.okx(ord);
    let g = choose|g: IMap<P::Inx, IV>| #[trigger] o.ok(g, ord);
    lemma_order(o, g, ord);
}

/// what holds of an entry
pub proof fn lemma_live<P: Ptr, K, V>(o: OrdArena<P, K, V>, p: P::Inx)
    requires o.tree(), o.a.live(p),
    ensures 0 <= o.pos(p) < o.order().len(), o.order()[o.pos(p)] == p, ck_ok(o.a, o.order(), o.pos(p)),
{
    hide(t_ok);
    lemma_wit(o);
    lemma_n(tv(o.a), o.root, wit(o), o.order(), p);
    assert(ck_ok(o.a, o.order(), o.pos(p)));
}

pub proof fn lemma_pos<P: Ptr, K, V>(o: OrdArena<P, K, V>, k: int)
    requires o.tree(), 0 <= k < o.order().len(),
    ensures o.a.live(o.order()[k]), ck_ok(o.a, o.order(), k), o.pos(o.order()[k]) == k,
{
    hide(t_ok);
    lemma_wit(o);
    assert(ck_ok(o.a, o.order(), k));
    lemma_k(tv(o.a), o.root, wit(o), o.order(), k);
}
@@module ord_arena ord/ord_arena.rs
@@text
broadcast use {ptr_axioms, ax_vec_len, ax_vec_cap, ax_nchain_vec, arena_lemmas};
@@fn OrdArena::len props=O04
    ensures r == self.a.a.len,
@@fn OrdArena::is_empty props=O02,O04
    ensures r == (self.a.a.len == 0),
@@fn OrdArena::capacity props=A03
    ensures r == self.a.a.cap(),
@@fn OrdArena::generation props=A04
    ensures r == self.a.a.generation,
@@fn OrdArena::first props=O01
    requires self.wf(),
    ensures match r {
            Some(p) => self.has(p) && self.order().len() > 0 && p.sinx() == self.order()[0],
            None => self.order().len() == 0,
        },
@start
    proof { lemma_wit(*self); if self.order().len() > 0 { lemma_pos(*self, 0); } }
@@fn OrdArena::last props=O01
    requires self.wf(),
    ensures match r {
            Some(p) => self.has(p) && self.order().len() > 0 && p.sinx() == self.order().last(),
            None => self.order().len() == 0,
        },
@start
    proof { lemma_wit(*self); if self.order().len() > 0 { lemma_pos(*self, self.order().len() - 1); } }
@@fn OrdArena::contains props=O04,A01
    requires self.a.a.m.wf(),
    ensures r == self.has(p),
@@fn OrdArena::get props=O04,A01
    requires self.a.a.m.wf(),
    ensures match r { Some((k, v)) => self.has(p) && *k == self.key(p.sinx()) && *v == self.value(p.sinx()), None => !self.has(p) },
@@fn OrdArena::get_key props=O04,A01
    requires self.a.a.m.wf(),
    ensures match r { Some(k) => self.has(p) && *k == self.key(p.sinx()), None => !self.has(p) },
@@fn OrdArena::get_val props=O04,A01
    requires self.a.a.m.wf(),
    ensures match r { Some(v) => self.has(p) && *v == self.value(p.sinx()), None => !self.has(p) },
@@module ord_insert ord/insert.rs ord/ord_arena.rs
@@text props=O01,O02,O03,O04
use vstd::imap::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
broadcast use {ptr_axioms, ax_vec_len, ax_vec_cap, ax_nchain_vec, arena_lemmas};

/// only the ranks at the parent of the new leaf `p` may be wrong
pub open spec fn hung<I>(t: IMap<I, TN<I>>, p: I) -> bool {
    &&& t.dom().contains(p)
    &&& t[p] == leaf(t[p].back)
    &&& match t[p].back {
        None => r_all(t),
        Some(b) => {
            &&& r_except(t, b) && is_child(t, b, Some(p))
            &&& t[b].rank == 1 || (t[b].rank == 2 && r_ok(t, b))
            &&& t[b].rank == 1 ==> sib(t, b, Some(p)) is None
        }
    }
}

pub proof fn lemma_hung_done<I>(t: IMap<I, TN<I>>, p: I)
    requires hung(t, p), t[p].back is Some ==> t[t[p].back.unwrap()].rank == 2,
    ensures r_all(t),
{
    if t[p].back is Some {
        let b = t[p].back.unwrap();
        assert forall|q: I| t.dom().contains(q) implies #[trigger] r_ok(t, q) by { if q == b { } }
    }
}

pub proof fn lemma_hung_up<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, p: I)
    requires t_ok(t, root, g, ord), hung(t, p), t[p].back is Some, t[t[p].back.unwrap()].rank == 1,
    ensures ({
        let b = t[p].back.unwrap();
        let u = set_rank(t, b, 2);
        match t[b].back { None => r_all(u), Some(c) => ins_inv(u, p, b, c) }
    }),
{
    hide(t_ok);
    let b = t[p].back.unwrap();
    let u = set_rank(t, b, 2);
    lemma_n(t, root, g, ord, p);
    lemma_n(t, root, g, ord, b);
    if let Some(c) = t[b].back {
        lemma_n(t, root, g, ord, c);
        assert(r_ok(t, c));
        if let Some(x) = sib(t, c, Some(b)) { lemma_n(t, root, g, ord, x); }
    }
    assert forall|q: I| u.dom().contains(q) && t[b].back != Some(q) implies #[trigger] r_ok(u, q) by {
        lemma_n(t, root, g, ord, q);
        if q != b { assert(r_ok(t, q)); }
    }
}

/// the nodes around an insertion are different
pub proof fn lemma_ins_facts<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, p0: I, p1: I, p2: I)
    requires t_ok(t, root, g, ord), ins_inv(t, p0, p1, p2), ord.len() <= usize::MAX,
    ensures p0 != p1, p1 != p2, p0 != p2,
        t.dom().contains(p0), t.dom().contains(p1), t.dom().contains(p2), is_child(t, p1, Some(p0)), is_child(t, p2, Some(p1)),
        t[p1].l != t[p1].r, t[p2].l != t[p2].r,
        t[p2].back is Some ==> t.dom().contains(t[p2].back.unwrap()) && is_child(t, t[p2].back.unwrap(), Some(p2)) && t[t[p2].back.unwrap()].l != t[t[p2].back.unwrap()].r,
        t[p2].back != Some(p0), t[p2].back != Some(p1), t[p2].back != Some(p2),
        ({
            let s0 = sib(t, p1, Some(p0));
            let s1 = sib(t, p2, Some(p1));
            &&& s0 is Some ==> t.dom().contains(s0.unwrap()) && t[s0.unwrap()].back == Some(p1) && s0 != Some(p1) && s0 != Some(p2) && s0 != t[p2].back
            &&& s1 is Some ==> t.dom().contains(s1.unwrap()) && 1 <= t[s1.unwrap()].rank <= 128
            &&& t[p0].l is Some ==> t.dom().contains(t[p0].l.unwrap()) && t[p0].l != t[p0].r
            &&& t[p0].r is Some ==> t.dom().contains(t[p0].r.unwrap()) && t[p0].l != t[p0].r
        }),
        1 <= t[p1].rank <= 128, 1 <= t[p0].rank <= 128, t[p1].rank <= t[p2].rank <= 129,
{
    hide(t_ok);
    lemma_n(t, root, g, ord, p2);
    lemma_n(t, root, g, ord, p1);
    lemma_n(t, root, g, ord, p0);
    if let Some(c) = t[p2].back { lemma_n(t, root, g, ord, c); }
    if let Some(c) = t[p0].l { lemma_n(t, root, g, ord, c); }
    if let Some(c) = t[p0].r { lemma_n(t, root, g, ord, c); }
    if let Some(c) = sib(t, p1, Some(p0)) { lemma_n(t, root, g, ord, c); }
    if let Some(c) = sib(t, p2, Some(p1)) { lemma_n(t, root, g, ord, c); lemma_rank_small(t, root, g, ord, p2, c); }
    lemma_rank_small(t, root, g, ord, p2, p1);
    lemma_rank_small(t, root, g, ord, p2, p0);
}

/// conveying up the tree makes progress
pub proof fn lemma_up<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, p: I)
    requires t_ok(t, root, g, ord), t.dom().contains(p), t[p].back is Some,
    ensures g[p].hi - g[p].lo < g[t[p].back.unwrap()].hi - g[t[p].back.unwrap()].lo <= ord.len(),
        t.dom().contains(t[p].back.unwrap()), is_child(t, t[p].back.unwrap(), Some(p)),
{
    hide(t_ok);
    lemma_n(t, root, g, ord, p);
    lemma_n(t, root, g, ord, t[p].back.unwrap());
}

/// some positions show that `t` is a search tree for `ord`
pub open spec fn t_okx<I>(t: IMap<I, TN<I>>, root: I, ord: Seq<I>) -> bool {
    exists|g: IMap<I, IV>| #[trigger] t_ok(t, root, g, ord)
}

pub proof fn lemma_okx<P: Ptr, K, V>(o: OrdArena<P, K, V>, n: OrdArena<P, K, V>)
    requires o.tree(), n.a.wf(), kv_same(o.a, n.a), n.first == o.first, n.last == o.last, t_okx(tv(n.a), n.root, o.order()),
    ensures n.tree(), n.order() == o.order(),
{
    hide(t_ok);
    lemma_wit(o);
    let ord = o.order();
    let g = choose|g: IMap<P::Inx, IV>| #[trigger] t_ok(tv(n.a), n.root, g, ord);
    assert forall|k: int| 0 <= k < ord.len() implies #[trigger] ck_ok(n.a, ord, k) by {
        assert(ck_ok(o.a, ord, k));
        assert(kv_at(o.a.a.m@, n.a.a.m@, ord[k].ival()));
    }
    assert(n.ok(g, ord));
    lemma_order(n, g, ord);
}
@@fn OrdArena::rebalance_inserted props=O01,O02,O03,O04
@attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
    requires old(self).tree(), hung(tv(old(self).a), p),
    ensures final(self).wf(), final(self).order() == old(self).order(), kv_same(old(self).a, final(self).a),
@start
    hide(t_ok); hide(r_all); hide(ins_inv); hide(rot); hide(rot2); hide(ChainNoGenArena::wf);
    let ghost ord = self.order();
    let ghost mut g = wit(*self);
    let ghost t = tv(self.a);
    proof {
        lemma_wit(*self);
        lemma_n(t, self.root, g, ord, p);
        if t[p].back is Some {
            lemma_n(t, self.root, g, ord, t[p].back.unwrap());
            if t[t[p].back.unwrap()].rank == 1 { lemma_hung_up(t, self.root, g, ord, p); lemma_set_rank(t, self.root, g, ord, t[p].back.unwrap(), 2); }
            else { lemma_hung_done(t, p); }
        } else {
            lemma_hung_done(t, p);
        }
    }
@before 0
    proof {
        assert(tv(self.a) =~= set_rank(t, p1, 2));
    }
@loop 0
    invariant_except_break
        self.a.wf(), kv_same(old(self).a, self.a), self.first == old(self).first, self.last == old(self).last,
        t_ok(tv(self.a), self.root, g, ord), ins_inv(tv(self.a), p0, p1, p2),
        d01 == (tv(self.a)[p1].r == Some(p0)), d12 == (tv(self.a)[p2].r == Some(p1)),
    invariant
        old(self).tree(), ord == old(self).order(), ord.len() == old(self).a.a.len,
    ensures self.a.wf(), kv_same(old(self).a, self.a), self.first == old(self).first, self.last == old(self).last,
        t_okx(tv(self.a), self.root, ord), r_all(tv(self.a)),
    decreases ord.len() - (g[p2].hi - g[p2].lo),
@body 0
    let ghost t = tv(self.a);
    let ghost root = self.root;
    let ghost (q0, q1, q2) = (p0, p1, p2);
    proof {
        lemma_ins_facts(t, root, g, ord, p0, p1, p2);
        if t[p2].back is Some { lemma_up(t, root, g, ord, p2); }
    }
@break 0
    proof {
        let n = tv(self.a);
        if t[q1].rank < t[q2].rank {
            lemma_ins_done(t, root, g, ord, q0, q1, q2);
        } else if rk(t, sib(t, q2, Some(q1))) + 1 == t[q2].rank {
            lemma_ins_promote(t, root, g, ord, q0, q1, q2);
            lemma_set_rank(t, root, g, ord, q2, t[q1].rank + 1);
            assert(n =~= set_rank(t, q2, t[q1].rank + 1));
        } else if straight(t, q0, q1, q2) {
            lemma_ins_rot1(t, root, g, ord, q0, q1, q2);
            lemma_rot(t, root, g, ord, q1, q2);
            let u = rot(t, q1, q2);
            lemma_set_rank(u, rot_root(t, root, q1, q2), rotg(t, g, q1, q2), ord, q2, t[q0].rank);
            reveal(rot);
            assert(n =~= set_rank(u, q2, t[q0].rank));
            assert(self.root == rot_root(t, root, q1, q2));
        } else {
            lemma_ins_rot2(t, root, g, ord, q0, q1, q2);
            lemma_rot2_vals(t, root, g, ord, q0, q1, q2);
            let u = rot2(t, q0, q1, q2);
            let g2 = choose|g2: IMap<P::Inx, IV>| #[trigger] t_ok(u, rot2_root(t, root, q0, q1, q2), g2, ord);
            lemma_set_rank(u, rot2_root(t, root, q0, q1, q2), g2, ord, q0, t[q1].rank);
            let u1 = set_rank(u, q0, t[q1].rank);
            lemma_set_rank(u1, rot2_root(t, root, q0, q1, q2), g2, ord, q1, t[q0].rank);
            let u2 = set_rank(u1, q1, t[q0].rank);
            lemma_set_rank(u2, rot2_root(t, root, q0, q1, q2), g2, ord, q2, t[q0].rank);
            assert(n =~= ranks3(u, q0, t[q1].rank, q1, t[q0].rank, q2, t[q0].rank));
        }
        assert(t_okx(n, self.root, ord));
    }
@continue 0
    proof {
        lemma_ins_promote(t, root, g, ord, q0, q1, q2);
        lemma_set_rank(t, root, g, ord, q2, t[q1].rank + 1);
        assert(tv(self.a) =~= set_rank(t, q2, t[q1].rank + 1));
    }
@ret
    proof {
        let n = tv(self.a);
        if t[p].back is Some && t[t[p].back.unwrap()].rank == 1 { assert(n =~= set_rank(t, t[p].back.unwrap(), 2)); } else { assert(n =~= t); }
        assert(t_okx(n, self.root, ord));
        lemma_okx(*old(self), *self);
    }
@end
    proof { lemma_okx(*old(self), *self); }
@@text props=O01,O02,O04
/// the successor of `d`, when `d` has a right child, has no left child
pub proof fn lemma_succ<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, d: I, r: I)
    requires t_ok(t, root, g, ord), t.dom().contains(d), t[d].r is Some, r == ord[g[d].at + 1],
    ensures t.dom().contains(r), t[r].l is None, g[r].at == g[d].at + 1, g[d].at + 1 < ord.len(),
{
    hide(t_ok);
    lemma_node(t, root, g, ord, d);
    lemma_within(t, root, g, ord, t[d].r.unwrap(), g[d].at + 1);
    lemma_node(t, root, g, ord, r);
}

/// `p` is a new entry with neighbors `pn`, besides the tree
pub open spec fn kv_ins<P: Ptr, K, V>(o: OrdChain<P, K, V>, n: OrdChain<P, K, V>, p: P, pn: (Option<P::Inx>, Option<P::Inx>), k: K, v: V) -> bool {
    &&& o.a.at(idx(p)) is None
    &&& p.sgen() == o.a.generation
    &&& match n.a.at(idx(p)) { Some((g, l)) => g == p.sgen() && l.prev_next == pn && l.t.k == k && l.t.v == v, None => false }
    &&& n.a.len == o.a.len + 1
    &&& n.a.generation == o.a.generation
    &&& n.keep_cap(o)
    &&& forall|j: int| #![trigger ent(n.a.m@, j)] j != idx(p) ==>
        match (nlset(ent(o.a.m@, j), nis_at(pn.1, j), Some(p.sinx()), nis_at(pn.0, j), Some(p.sinx())), ent(n.a.m@, j)) {
            (None, None) => true,
            (Some((g, l)), Some((h, m))) => g == h && l.prev_next == m.prev_next && l.t.k == m.t.k && l.t.v == m.t.v,
            _ => false,
        }
}

pub open spec fn at_of<P: Ptr, K, V>(o: OrdArena<P, K, V>, b: P::Inx, d: bool) -> int {
    if d { o.pos(b) + 1 } else { o.pos(b) }
}

/// the neighbors of position `k` in a longer order
pub open spec fn pn_of<I>(ord: Seq<I>, k: int) -> (Option<I>, Option<I>) {
    (if k == 0 { None } else { Some(ord[k - 1]) }, if k == ord.len() { None } else { Some(ord[k]) })
}

pub proof fn lemma_ck_ins<P: Ptr, K, V>(o: OrdArena<P, K, V>, n: OrdArena<P, K, V>, p: P, i: int, k: K, v: V, j: int)
    requires o.tree(), kv_ins(o.a, n.a, p, pn_of(o.order(), i), k, v), 0 <= i <= o.order().len(), 0 <= j <= o.order().len(),
    ensures ck_ok(n.a, o.order().insert(i, p.sinx()), j),
{
    hide(t_ok);
    lemma_wit(o);
    let ord = o.order();
    let ord2 = ord.insert(i, p.sinx());
    if i > 0 { lemma_pos(o, i - 1); }
    if i < ord.len() { lemma_pos(o, i); }
    if j < i { lemma_pos(o, j); assert(ent(n.a.a.m@, ord[j].ival()) is Some); }
    if j > i { lemma_pos(o, j - 1); assert(ent(n.a.a.m@, ord[j - 1].ival()) is Some); }
}

/// what hanging a new leaf below `b` gives
pub proof fn lemma_hung<P: Ptr, K, V>(o: OrdArena<P, K, V>, n: OrdArena<P, K, V>, b: P::Inx, d: bool, p: P, k: K, v: V)
    requires o.wf(), o.a.live(b), child(tv(o.a)[b], d) is None, n.a.wf(), kv_ins(o.a, n.a, p, pn_of(o.order(), at_of(o, b, d)), k, v),
        tv(n.a) == hang(tv(o.a), b, d, p.sinx()),
        n.root == o.root, n.first == (if !d && o.first == b { p.sinx() } else { o.first }), n.last == (if d && o.last == b { p.sinx() } else { o.last }),
    ensures n.tree(), n.order() == o.order().insert(at_of(o, b, d), p.sinx()), hung(tv(n.a), p.sinx()),
        0 <= at_of(o, b, d) <= o.order().len(),
{
    hide(t_ok);
    lemma_wit(o);
    let (t, ord, g) = (tv(o.a), o.order(), wit(o));
    let k0 = at_of(o, b, d);
    lemma_hang(t, o.root, g, ord, b, d, p.sinx());
    lemma_n(t, o.root, g, ord, b);
    lemma_live(o, b);
    let ord2 = ord.insert(k0, p.sinx());
    let g2 = hangg(g, b, d, p.sinx());
    assert forall|j: int| 0 <= j < ord2.len() implies #[trigger] ck_ok(n.a, ord2, j) by { lemma_ck_ins(o, n, p, k0, k, v, j); }
    if o.first == b { lemma_pos(o, 0); }
    if o.last == b { lemma_pos(o, ord.len() - 1); }
    assert(n.ok(g2, ord2));
    lemma_order(n, g2, ord2);
    let u = tv(n.a);
    assert(r_ok(t, b));
    if let Some(c) = child(t[b], !d) { lemma_n(t, o.root, g, ord, c); assert(r_ok(t, c)); lemma_rank_pos(t, o.root, g, ord, b, c); }
    assert(u[p.sinx()] == leaf(Some(b)));
    assert forall|q: P::Inx| u.dom().contains(q) && q != b implies #[trigger] r_ok(u, q) by {
        if q != p.sinx() {
            lemma_n(t, o.root, g, ord, q);
            assert(r_ok(t, q));
        }
    }
}

pub open spec fn ord_ins<P: Ptr, K, V>(o: OrdArena<P, K, V>, n: OrdArena<P, K, V>, i: int, p: P, k: K, v: V) -> bool {
    &&& 0 <= i <= o.order().len()
    &&& n.order() == o.order().insert(i, p.sinx())
    &&& !o.a.live(p.sinx()) && n.has(p) && n.key(p.sinx()) == k && n.value(p.sinx()) == v
    &&& p.sgen() == o.a.a.generation
    &&& n.same_but(o, p.sinx())
    &&& n.a.a.len == o.a.a.len + 1
    &&& n.a.a.generation == o.a.a.generation
    &&& n.a.keep_cap(o.a)
}

pub proof fn lemma_ins_end<P: Ptr, K, V>(o: OrdArena<P, K, V>, m: OrdArena<P, K, V>, n: OrdArena<P, K, V>, i: int, p: P, k: K, v: V)
    requires o.tree(), kv_ins(o.a, m.a, p, pn_of(o.order(), i), k, v), kv_same(m.a, n.a), n.order() == m.order(),
        m.order() == o.order().insert(i, p.sinx()), 0 <= i <= o.order().len(),
    ensures ord_ins(o, n, i, p, k, v),
{
    assert(kv_at(m.a.a.m@, n.a.a.m@, idx(p)));
    assert(ent(n.a.a.m@, idx(p)) is Some);
    assert forall|j: P::Inx| j != p.sinx() implies #[trigger] n.same_at(o, j) by {
        assert(kv_at(m.a.a.m@, n.a.a.m@, j.ival()));
        assert(ent(m.a.a.m@, j.ival()) is Some <==> ent(n.a.a.m@, j.ival()) is Some);
        if j.ival() == idx(p) { assert(j == p.sinx()); }
    }
}
@@fn OrdArena::insert_empty props=O01,O02,O04,A03,A04
    requires old(self).wf(), old(self).a.a.len < <P::Inx as PtrInx>::maxi(),
    ensures final(self).wf(),
        match r {
            Some(p) => old(self).a.a.len == 0 && final(self).order() == seq![p.sinx()] && ord_ins(*old(self), *final(self), 0, p, k, v),
            None => old(self).a.a.len > 0 && *final(self) == *old(self),
        },
@start
    proof { lemma_wit(*self); }
@end
    proof {
        let o = *old(self);
        if __r is Some {
            let p = __r.unwrap();
            let t = tv(self.a);
            assert forall|q: P::Inx| #![trigger t.dom().contains(q)] t.dom().contains(q) implies q == p.sinx() by {
                if o.a.live(q) { lemma_live(o, q); }
                assert(ent(self.a.a.m@, q.ival()) is Some);
            }
            lemma_lone(t, p.sinx());
            assert(ck_ok(self.a, seq![p.sinx()], 0));
            let g = IMap::new(|q: P::Inx| true, |q: P::Inx| IV { lo: 0, at: 0, hi: 1 });
            assert(self.ok(g, seq![p.sinx()]));
            lemma_order(*self, g, seq![p.sinx()]);
            assert(o.order().insert(0, p.sinx()) =~= seq![p.sinx()]);
            assert forall|j: P::Inx| j != p.sinx() implies #[trigger] self.same_at(o, j) by {
                if o.a.live(j) { lemma_live(o, j); }
                if self.a.live(j) { assert(t.dom().contains(j)); }
            }
        }
    }
@@fn OrdArena::insert_inx_manual_unwrap props=O01,O02,O03,O04,A03,A04
@attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
    requires old(self).wf(), old(self).a.live(p), old(self).a.a.len < <P::Inx as PtrInx>::maxi(),
    ensures final(self).wf(),
        match direction {
            Ordering::Less => r.1 is None && ord_ins(*old(self), *final(self), old(self).pos(p), r.0, k, v),
            Ordering::Greater => r.1 is None && ord_ins(*old(self), *final(self), old(self).pos(p) + 1, r.0, k, v),
            Ordering::Equal => r.1 == Some((k, old(self).value(p))) && r.0.sinx() == p && final(self).has(r.0)
                && final(self).order() == old(self).order() && final(self).same_but(*old(self), p)
                && final(self).a.live(p) && final(self).key(p) == old(self).key(p) && final(self).value(p) == v
                && final(self).gen_at(p) == old(self).gen_at(p) && final(self).a.keep(old(self).a),
        },
@start
    hide(t_ok); hide(r_all); hide(ChainNoGenArena::wf);
    let ghost o = *self;
    let ghost t = tv(self.a);
    let ghost p_in = p;
    proof {
        lemma_wit(o);
        lemma_live(o, p);
        if t[p].l is Some { lemma_pred(t, o.root, wit(o), o.order(), p, o.order()[o.pos(p) - 1]); }
        if t[p].r is Some { lemma_succ(t, o.root, wit(o), o.order(), p, o.order()[o.pos(p) + 1]); }
    }
@pre insert 0
    proof { lemma_live(o, p); }
@pre insert 1
    proof { lemma_live(o, p); }
@pre rebalance_inserted 0
    let ghost m = *self;
    proof {
        assert(tv(self.a) =~= hang(t, p, true, p_new.sinx()));
        lemma_hung(o, m, p, true, p_new, k, v);
    }
@at rebalance_inserted 0
    proof { lemma_ins_end(o, m, *self, at_of(o, p, true), p_new, k, v); }
@pre rebalance_inserted 1
    let ghost m = *self;
    proof {
        assert(tv(self.a) =~= hang(t, p, false, p_new.sinx()));
        lemma_hung(o, m, p, false, p_new, k, v);
    }
@at rebalance_inserted 1
    proof { lemma_ins_end(o, m, *self, at_of(o, p, false), p_new, k, v); }
@ret
    proof {
        assert(tv(self.a) =~= t);
        assert(o.ok(wit(o), o.order()));
        assert forall|k: int| 0 <= k < o.order().len() implies #[trigger] ck_ok(self.a, o.order(), k) by {
            assert(ck_ok(o.a, o.order(), k));
        }
        assert(self.ok(wit(o), o.order()));
        lemma_order(*self, wit(o), o.order());
    }
@@module ord_remove ord/remove.rs ord/ord_arena.rs
@@text props=O01,O02,O03,O04
use vstd::imap::*;
broadcast use {ptr_axioms, ax_vec_len, ax_vec_cap, ax_nchain_vec, arena_lemmas};

/// the entry at `p` is gone, besides the tree
pub open spec fn kv_rem<P: Ptr, K, V>(o: OrdChain<P, K, V>, n: OrdChain<P, K, V>, p: P::Inx) -> bool {
    let l = o.a.at(p.ival()).unwrap().1;
    &&& n.a.at(p.ival()) is None
    &&& n.a.len == o.a.len - 1
    &&& n.a.cap() == o.a.cap()
    &&& forall|j: int| #![trigger ent(n.a.m@, j)] j != p.ival() ==>
        match (nlset(ent(o.a.m@, j), nis_at(l.prev_next.1, j), l.prev_next.0, nis_at(l.prev_next.0, j), l.prev_next.1), ent(n.a.m@, j)) {
            (None, None) => true,
            (Some((g, l)), Some((h, m))) => g == h && l.prev_next == m.prev_next && l.t.k == m.t.k && l.t.v == m.t.v,
            _ => false,
        }
}

pub proof fn lemma_ck_rem<P: Ptr, K, V>(o: OrdArena<P, K, V>, m: OrdArena<P, K, V>, n: OrdArena<P, K, V>, p: P::Inx, j: int)
    requires o.tree(), o.a.live(p), kv_rem(o.a, m.a, p), kv_same(m.a, n.a), 0 <= j < o.order().len() - 1,
    ensures ck_ok(n.a, o.order().remove(o.pos(p)), j),
{
    hide(t_ok);
    lemma_wit(o);
    lemma_live(o, p);
    let ord = o.order();
    let i = o.pos(p);
    let ord2 = ord.remove(i);
    if i > 0 { lemma_pos(o, i - 1); }
    if i < ord.len() - 1 { lemma_pos(o, i + 1); }
    let jo = if j < i { j } else { j + 1 };
    lemma_pos(o, jo);
    assert(ord2[j] == ord[jo]);
    let q = ord[jo];
    assert(kv_at(m.a.a.m@, n.a.a.m@, q.ival()));
    assert(ent(m.a.a.m@, q.ival()) is Some);
    assert(ent(n.a.a.m@, q.ival()) is Some);
    if jo > 0 { lemma_pos(o, jo - 1); }
    if jo < ord.len() - 1 { lemma_pos(o, jo + 1); }
}

/// the same entries and links
pub proof fn lemma_rem_none<P: Ptr, K, V>(o: OrdArena<P, K, V>)
    requires o.tree(),
    ensures forall|n: OrdArena<P, K, V>| #![trigger n.tree()] #![trigger n.order()] n.a.wf() && n.a.a.m@ == o.a.a.m@ && n.a.a.len == o.a.a.len && n.root == o.root && n.first == o.first && n.last == o.last
            ==> n.tree() && n.order() == o.order() && tv(n.a) == tv(o.a) && (o.wf() ==> n.wf()),
{
    hide(t_ok);
    lemma_wit(o);
    assert forall|n: OrdArena<P, K, V>| #![trigger n.tree()] n.a.wf() && n.a.a.m@ == o.a.a.m@ && n.a.a.len == o.a.a.len && n.root == o.root && n.first == o.first && n.last == o.last
            implies n.tree() && n.order() == o.order() && tv(n.a) == tv(o.a) && (o.wf() ==> n.wf()) by {
        assert(tv(n.a) =~= tv(o.a));
        assert forall|k: int| 0 <= k < o.order().len() implies #[trigger] ck_ok(n.a, o.order(), k) by { assert(ck_ok(o.a, o.order(), k)); }
        assert(n.ok(wit(o), o.order()));
        lemma_order(n, wit(o), o.order());
    }
}

/// without `d`
pub open spec fn drop1<I>(t: IMap<I, TN<I>>, d: I) -> IMap<I, TN<I>> {
    t.remove(d)
}

/// `r` has taken the place of `d`, but its own place is still named
pub open spec fn lift1<I>(t: IMap<I, TN<I>>, d: I, r: I) -> IMap<I, TN<I>> {
    let near = t[d].l == Some(r);
    IMap::new(|q: I| t.dom().contains(q) && q != d, |q: I|
        if q == r {
            TN { back: t[d].back, l: if near { t[r].l } else { t[d].l }, r: t[d].r, rank: t[d].rank }
        } else {
            let x = if (!near && t[d].l == Some(q)) || t[d].r == Some(q) { with_back(t[q], Some(r)) } else { t[q] };
            relink(x, d, Some(r))
        })
}

/// the nodes around a removal
pub proof fn lemma_rem_around<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, d: I)
    requires t_ok(t, root, g, ord), r_all(t), t.dom().contains(d), ord.len() > 1,
    ensures 
        t[d].l is None && t[d].r is None ==> t[d].back is Some,
        t[d].l is None && t[d].r is Some ==> ({
            let z = t[d].r.unwrap();
            &&& t[d].rank == 2 && t.dom().contains(z) && t[z] == leaf(Some(d)) && z != d
            &&& g[d].at + 1 < ord.len() && ord[g[d].at + 1] == z
        }),
        t[d].l is Some ==> g[d].at > 0 && ({
            let r = ord[g[d].at - 1];
            &&& t.dom().contains(r) && r != d && t[r].r is None
            &&& t[r].back is Some && t.dom().contains(t[r].back.unwrap()) && t[r].back != Some(r)
            &&& t[d].back != Some(r)
            &&& if t[d].l == Some(r) { t[r].back == Some(d) } else { t[r].back != Some(d) && t[t[r].back.unwrap()].r == Some(r) && t[t[r].back.unwrap()].l != Some(r) }
            &&& t.dom().contains(t[d].l.unwrap()) && t[d].l != Some(d)
            &&& t[d].r != Some(r)
            &&& match t[r].l {
                None => t[r].rank == 1,
                Some(x) => t[r].rank == 2 && t.dom().contains(x) && t[x] == leaf(Some(r)) && x != d && x != r && Some(x) != t[d].l && Some(x) != t[d].r && Some(x) != t[d].back && t[r].back != Some(x)
                    && g[d].at > 1 && ord[g[d].at - 2] == x,
            }
            // only the first two entries have neither
            &&& g[d].at == ord.len() - 1 ==> t[d].l == Some(r) && t[r].l is None
        }),
        t[d].back is Some ==> t.dom().contains(t[d].back.unwrap()) && is_child(t, t[d].back.unwrap(), Some(d)) && t[t[d].back.unwrap()].l != t[t[d].back.unwrap()].r && t[d].back != Some(d) && t[d].back != t[d].l && t[d].back != t[d].r,
        t[d].l is Some ==> t[d].l != t[d].r && t.dom().contains(t[d].l.unwrap()),
        t[d].r is Some ==> t.dom().contains(t[d].r.unwrap()) && t[d].r != Some(d),
        0 <= g[d].at < ord.len(), ord[g[d].at] == d,
        forall|q: I| #![trigger t[q]] t.dom().contains(q) && is_child(t, q, Some(d)) ==> t[d].back == Some(q),
{
    hide(t_ok); hide(r_all);
    lemma_node(t, root, g, ord, d);
    assert forall|q: I| #![trigger t[q]] t.dom().contains(q) && is_child(t, q, Some(d)) implies t[d].back == Some(q) by { lemma_node(t, root, g, ord, q); }
    if t[d].back is None {
        lemma_root(t, root, g, ord);
    }
    if t[d].l is None && t[d].r is Some {
        let z = t[d].r.unwrap();
        lemma_pull_rank(t, root, g, ord, d, z);
        lemma_node(t, root, g, ord, z);
    }
    if t[d].l is Some {
        let r = ord[g[d].at - 1];
        lemma_pred(t, root, g, ord, d, r);
        lemma_half(t, root, g, ord, r);
        lemma_node(t, root, g, ord, r);
        if let Some(x) = t[r].l {
            lemma_node(t, root, g, ord, x);
        }
        if g[d].at == ord.len() - 1 {
            lemma_half(t, root, g, ord, d);
            lemma_node(t, root, g, ord, t[d].l.unwrap());
        }
    }
}

/// the nodes around a rank that may be wrong
pub proof fn lemma_rem_facts<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, p1: I, p0: Option<I>)
    requires t_ok(t, root, g, ord), rem_inv(t, p1, p0), ord.len() <= usize::MAX,
    ensures t.dom().contains(p1), 1 <= t[p1].rank <= 131, 0 <= rk(t, p0) <= 128, p0 is Some ==> t.dom().contains(p0.unwrap()),
        sib(t, p1, p0) is None ==> t[p1].l is None && t[p1].r is None && p0 is None,
        t[p1].back != Some(p1),
        t[p1].back is Some ==> t.dom().contains(t[p1].back.unwrap()) && is_child(t, t[p1].back.unwrap(), Some(p1)) && t[t[p1].back.unwrap()].l != t[t[p1].back.unwrap()].r,
        sib(t, p1, p0) is Some ==> ({
            let s = sib(t, p1, p0).unwrap();
            let a = nephew(t, p1, p0, s, true);
            let b = nephew(t, p1, p0, s, false);
            &&& t.dom().contains(s) && s != p1 && 1 <= t[s].rank <= 128 && t[p1].back != Some(s)
            &&& t[p1].l != t[p1].r
            &&& a is Some ==> t.dom().contains(a.unwrap()) && a != Some(s) && a != Some(p1) && a != t[p1].back && 1 <= t[a.unwrap()].rank <= 128 && a != b
            &&& b is Some ==> t.dom().contains(b.unwrap()) && b != Some(s) && b != Some(p1) && b != t[p1].back && 1 <= t[b.unwrap()].rank <= 128
        }),
{
    hide(t_ok);
    lemma_rem_sib(t, root, g, ord, p1, p0);
    lemma_node(t, root, g, ord, p1);
    if t[p1].l is None && t[p1].r is None {
    } else {
        if let Some(c) = p0 { lemma_node(t, root, g, ord, c); lemma_rank_small(t, root, g, ord, p1, c); }
        let s = sib(t, p1, p0).unwrap();
        lemma_node(t, root, g, ord, s);
        lemma_rank_small(t, root, g, ord, p1, s);
        let a = nephew(t, p1, p0, s, true);
        let b = nephew(t, p1, p0, s, false);
        if let Some(c) = a { lemma_node(t, root, g, ord, c); lemma_rank_small(t, root, g, ord, p1, c); }
        if let Some(c) = b { lemma_node(t, root, g, ord, c); lemma_rank_small(t, root, g, ord, p1, c); }
    }
}

/// what is known after the removal
pub proof fn lemma_rem_end<P: Ptr, K, V>(o: OrdArena<P, K, V>, m: OrdArena<P, K, V>, n: OrdArena<P, K, V>, p: P::Inx)
    requires o.wf(), o.a.live(p), kv_rem(o.a, m.a, p), kv_same(m.a, n.a), n.a.wf(), o.order().len() > 1,
        t_okx(tv(n.a), n.root, o.order().remove(o.pos(p))), r_all(tv(n.a)),
        n.first == o.order().remove(o.pos(p))[0], n.last == o.order().remove(o.pos(p)).last(),
    ensures n.wf(), n.order() == o.order().remove(o.pos(p)), !n.a.live(p), n.same_but(o, p),
{
    hide(t_ok);
    lemma_wit(o);
    lemma_live(o, p);
    let ord2 = o.order().remove(o.pos(p));
    let g = choose|g: IMap<P::Inx, IV>| #[trigger] t_ok(tv(n.a), n.root, g, ord2);
    assert forall|j: int| 0 <= j < ord2.len() implies #[trigger] ck_ok(n.a, ord2, j) by { lemma_ck_rem(o, m, n, p, j); }
    assert(n.ok(g, ord2));
    lemma_order(n, g, ord2);
    lemma_rem_same(o, m, n, p);
}

pub proof fn lemma_rem_same<P: Ptr, K, V>(o: OrdArena<P, K, V>, m: OrdArena<P, K, V>, n: OrdArena<P, K, V>, p: P::Inx)
    requires kv_rem(o.a, m.a, p), kv_same(m.a, n.a),
    ensures !n.a.live(p), n.same_but(o, p),
{
    assert(kv_at(m.a.a.m@, n.a.a.m@, p.ival()));
    assert(ent(n.a.a.m@, p.ival()) is None);
    assert forall|j: P::Inx| j != p implies #[trigger] n.same_at(o, j) by {
        assert(kv_at(m.a.a.m@, n.a.a.m@, j.ival()));
        assert(ent(m.a.a.m@, j.ival()) is Some <==> ent(n.a.a.m@, j.ival()) is Some);
    }
}

/// the last entry is removed
pub proof fn lemma_rem_last<P: Ptr, K, V>(o: OrdArena<P, K, V>, n: OrdArena<P, K, V>, p: P::Inx)
    requires o.wf(), o.a.live(p), kv_rem(o.a, n.a, p), n.a.wf(), o.order().len() == 1,
    ensures n.wf(), n.order() == o.order().remove(o.pos(p)), !n.a.live(p), n.same_but(o, p),
{
    lemma_wit(o);
    lemma_live(o, p);
    let ord2 = o.order().remove(o.pos(p));
    let t = tv(n.a);
    assert(kv_same(n.a, n.a));
    lemma_rem_same(o, n, n, p);
    assert forall|q: P::Inx| #![trigger t.dom().contains(q)] !t.dom().contains(q) by {
        if n.a.live(q) { assert(n.same_at(o, q)); lemma_live(o, q); }
    }
    assert(t_ok(t, n.root, wit(o), ord2));
    assert(n.ok(wit(o), ord2));
    lemma_order(n, wit(o), ord2);
}
@@text props=O01,O02,O03,O04
/// where the ranks are checked first
pub open spec fn rem_p1<I>(t: IMap<I, TN<I>>, d: I, r: I) -> I {
    if t[d].l is None && t[d].r is None { t[d].back.unwrap() } else if t[d].l is None { t[d].r.unwrap() } else { lift_p1(t, d, r) }
}

/// the tree without `d`, before the ranks are fixed
pub open spec fn rem_t<I>(t: IMap<I, TN<I>>, d: I, r: I) -> IMap<I, TN<I>> {
    if t[d].l is None && t[d].r is None { cut(t, d) } else if t[d].l is None { pull(t, d, t[d].r.unwrap()) } else { lift(t, d, r) }
}

pub open spec fn rem_root<I>(t: IMap<I, TN<I>>, root: I, d: I, r: I) -> I {
    if t[d].l is None && t[d].r is None { root } else if t[d].l is None { gone_root(t, root, d, t[d].r.unwrap()) } else { gone_root(t, root, d, r) }
}

/// an end of the order can only move to there
pub proof fn lemma_rem_ends<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, d: I)
    requires t_ok(t, root, g, ord), r_all(t), t.dom().contains(d), ord.len() > 1,
    ensures ({
            let p1 = rem_p1(t, d, ord[g[d].at - 1]);
            &&& p1 != d && t.dom().contains(p1)
            &&& g[d].at == 0 ==> ord[1] == p1
            &&& g[d].at == ord.len() - 1 ==> ord[ord.len() - 2] == p1
            &&& 0 <= g[p1].at < ord.len() && ord[g[p1].at] == p1
        }),
{
    hide(t_ok); hide(r_all);
    lemma_rem_around(t, root, g, ord, d);
    lemma_node(t, root, g, ord, d);
    let r = ord[g[d].at - 1];
    if t[d].l is Some { lemma_pred(t, root, g, ord, d, r); lemma_node(t, root, g, ord, r); }
    lemma_node(t, root, g, ord, rem_p1(t, d, r));
}

pub proof fn lemma_rem_start<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, d: I)
    requires t_ok(t, root, g, ord), r_all(t), t.dom().contains(d), ord.len() > 1,
    ensures ({
            let r = ord[g[d].at - 1];
            let p1 = rem_p1(t, d, r);
            let u = cleared(rem_t(t, d, r), p1);
            &&& rem_inv(u, p1, None)
            &&& t_okx(u, rem_root(t, root, d, r), ord.remove(g[d].at))
        }),
{
    hide(t_ok); hide(r_all); hide(rem_inv); hide(cut); hide(pull); hide(lift);
    lemma_rem_around(t, root, g, ord, d);
    lemma_rem_ends(t, root, g, ord, d);
    let r = ord[g[d].at - 1];
    let p1 = rem_p1(t, d, r);
    let x = rem_t(t, d, r);
    let ord2 = ord.remove(g[d].at);
    let root2 = rem_root(t, root, d, r);
    if t[d].l is None && t[d].r is None {
        lemma_cut_rank(t, root, g, ord, d);
        lemma_cut(t, root, g, ord, d);
        reveal(cut);
        lemma_set_rank(x, root2, cutg(g, g[d].at), ord2, p1, 1);
        assert(t_ok(cleared(x, p1), root2, cutg(g, g[d].at), ord2));
    } else if t[d].l is None {
        let z = t[d].r.unwrap();
        lemma_pull_rank(t, root, g, ord, d, z);
        lemma_pull(t, root, g, ord, d, z);
        reveal(pull);
        lemma_set_rank(x, root2, pullg(g, g[d].at, z), ord2, p1, 1);
        assert(t_ok(cleared(x, p1), root2, pullg(g, g[d].at, z), ord2));
    } else {
        lemma_lift_rank(t, root, g, ord, d, r);
        lemma_lift(t, root, g, ord, d, r);
        reveal(lift);
        lemma_set_rank(x, root2, liftg(g, g[d].at, d, r), ord2, p1, 1);
        assert(t_ok(cleared(x, p1), root2, liftg(g, g[d].at, d, r), ord2));
    }
}

/// an end of the chain
pub proof fn lemma_rem_end_at<P: Ptr, K, V>(o: OrdArena<P, K, V>, m: OrdArena<P, K, V>, n: OrdArena<P, K, V>, d: P::Inx, p1: P::Inx)
    requires o.wf(), o.a.live(d), kv_rem(o.a, m.a, d), kv_same(m.a, n.a), o.order().len() > 1, p1 == rem_p1(tv(o.a), d, o.order()[o.pos(d) - 1]),
    ensures ({
            let ord2 = o.order().remove(o.pos(d));
            &&& n.a.live(p1)
            &&& n.a.pv(p1) is None ==> p1 == ord2[0]
            &&& n.a.pv(p1) is Some ==> o.first == ord2[0]
            &&& n.a.nx(p1) is None ==> p1 == ord2.last()
            &&& n.a.nx(p1) is Some ==> o.last == ord2.last()
        }),
{
    hide(t_ok); hide(r_all);
    lemma_wit(o);
    let (t, g, ord) = (tv(o.a), wit(o), o.order());
    lemma_live(o, d);
    lemma_rem_ends(t, o.root, g, ord, d);
    let k = if g[p1].at < g[d].at { g[p1].at } else { g[p1].at - 1 };
    let ord2 = ord.remove(o.pos(d));
    assert(ord2[k] == p1);
    lemma_ck_rem(o, m, n, d, k);
    lemma_pos(o, 0);
    lemma_pos(o, ord.len() - 1);
}
@@fn OrdArena::remove_internal props=O01,O02,O03,O04,A01,A04
@attr #[verifier::spinoff_prover] #[verifier::rlimit(100)]
    requires old(self).wf(),
    ensures final(self).wf(), final(self).a.a.cap() == old(self).a.a.cap(),
        match r {
            Some((k, v)) => old(self).has(p) && k == old(self).key(p.sinx()) && v == old(self).value(p.sinx())
                && final(self).order() == old(self).order().remove(old(self).pos(p.sinx())) && !final(self).a.live(p.sinx())
                && final(self).same_but(*old(self), p.sinx()) && final(self).a.a.len == old(self).a.a.len - 1
                && final(self).a.a.gen() == old(self).a.a.gen() + (if inc_gen && <P::Gen as PtrGen>::counted() { 1int } else { 0int }),
            None => !old(self).has(p) && final(self).order() == old(self).order() && final(self).same(*old(self))
                && final(self).a.a.len == old(self).a.a.len && final(self).a.a.generation == old(self).a.a.generation,
        },
@start
    hide(t_ok); hide(r_all); hide(rem_inv); hide(rot); hide(ChainNoGenArena::wf); hide(cut); hide(pull); hide(lift);
    let ghost o = *self;
    let ghost t = tv(self.a);
    let ghost d = p.sinx();
    let ghost g0 = wit(o);
    let ghost ord = o.order();
    let ghost root = self.root;
    proof { lemma_wit(o); lemma_rem_none(o); }
@at remove_internal 0
    let ghost m = *self;
    let ghost ord2 = ord.remove(o.pos(d));
    let ghost pr = ord[o.pos(d) - 1];
    proof {
        lemma_live(o, d);
        assert(kv_rem(o.a, m.a, d));
        assert(tv(m.a) =~= drop1(t, d));
        if ord.len() > 1 { lemma_rem_around(t, root, g0, ord, d); }
    }
@ret
    proof { lemma_rem_last(o, *self, d); }
@before 0
    let ghost mut step = 0int;
@loop 0
    invariant
        p.sinx() == d, kv_rem(o.a, m.a, d), kv_same(m.a, self.a), self.a.wf(), self.first == o.first, self.last == o.last,
        step == 0 ==> tv(self.a) == drop1(t, d) && p_d == d && d_tree0 == t[d].l && d_tree1 == t[d].r && d_back == t[d].back && d_rank == t[d].rank
            && d_prev == o.a.pv(d) && d_next == o.a.nx(d) && !use_next && p1 == t[d].back && self.root == root,
        step == 1 ==> t[d].l is Some && tv(self.a) == lift1(t, d, pr) && p_d == pr && d_tree0 == t[pr].l && d_tree1 is None && d_back == t[pr].back && d_rank == t[pr].rank
            && (t[pr].l is Some ==> d_prev == t[pr].l) && !use_next && p1 == (if t[d].l == Some(pr) { Some(pr) } else { t[pr].back }) && self.root == gone_root(t, root, d, pr),
        step == 2 ==> d_tree0 is None && d_tree1 is None && p1 == Some(p_d)
            && if t[d].l is None {
                t[d].r == Some(p_d) && tv(self.a) == pull(t, d, p_d) && self.root == gone_root(t, root, d, p_d)
            } else {
                t[pr].l == Some(p_d) && tv(self.a) == set_rank(lift(t, d, pr), p_d, 2) && self.root == gone_root(t, root, d, pr)
            },
        0 <= step <= 2,
        t_ok(t, root, g0, ord), r_all(t), ord.len() > 1, t.dom().contains(d), pr == ord[g0[d].at - 1], ck_ok(o.a, ord, g0[d].at), ord[g0[d].at] == d,
        o.tree(), ord == o.order(), g0 == wit(o),
    ensures step == 0 ==> t[d].l is None && t[d].r is None, step == 1 ==> t[pr].l is None,
    decreases 2 - step,
@body 0
    let ghost t1 = tv(self.a);
    proof {
        lemma_rem_around(t, root, g0, ord, d);
        if step < 2 {
            if t[d].l is Some {
                lemma_ck_rem(o, m, *self, d, g0[d].at - 1);
                let (l, y) = (t[d].l.unwrap(), t[pr].back.unwrap());
                assert(t1.dom().contains(pr) && nd(self.a, pr).rank == t1[pr].rank);
                assert(t1.dom().contains(l) && nd(self.a, l).rank == t1[l].rank);
                if t[pr].l is Some { let x = t[pr].l.unwrap(); assert(t1.dom().contains(x) && nd(self.a, x).rank == t1[x].rank); }
                if y != d { assert(t1.dom().contains(y) && nd(self.a, y).rank == t1[y].rank); }
            }
            if t[d].r is Some { let z = t[d].r.unwrap(); assert(t1.dom().contains(z) && nd(self.a, z).rank == t1[z].rank); }
            if t[d].back is Some { let b = t[d].back.unwrap(); assert(t1.dom().contains(b) && nd(self.a, b).rank == t1[b].rank); }
        }
    }
@tail 0
    proof {
        let n = tv(self.a);
        assert forall|q: P::Inx| n.dom().contains(q) <==> t1.dom().contains(q) by {}
        if step == 1 {
            reveal(lift);
            let u = set_rank(lift(t, d, pr), p_d, 2);
            let y = t[pr].back.unwrap();
            assert(n[p_d] == u[p_d]);
            assert(y != d ==> n[y] == u[y]);
            assert forall|q: P::Inx| t1.dom().contains(q) implies n[q] == u[q] by {
                if q != p_d && q != y { assert(n[q] == t1[q]); }
            }
            assert(n =~= u);
            step = 2;
        } else if t[d].l is None {
            reveal(pull);
            assert forall|q: P::Inx| t1.dom().contains(q) implies n[q] == pull(t, d, p_d)[q] by {
                if q != p_d && t[d].back != Some(q) { assert(n[q] == t1[q]); }
            }
            assert(n =~= pull(t, d, p_d));
            step = 2;
        } else {
            let u = lift1(t, d, pr);
            assert(n[pr] == u[pr]);
            assert forall|q: P::Inx| t1.dom().contains(q) implies n[q] == u[q] by {
                if q != pr && t[d].back != Some(q) && t[d].l != Some(q) && t[d].r != Some(q) { assert(n[q] == t1[q]); }
            }
            assert(n =~= u);
            step = 1;
        }
    }
@after 0
    let ghost t2 = tv(self.a);
    proof {
        lemma_rem_around(t, root, g0, ord, d);
        assert(p1 == Some(rem_p1(t, d, pr)));
        let p1 = p1.unwrap();
        lemma_rem_end_at(o, m, *self, d, p1);
        assert(t2.dom().contains(p1) && nd(self.a, p1).rank == t2[p1].rank);
    }
@before 1
    let ghost mut g;
    proof {
        lemma_rem_around(t, root, g0, ord, d);
        lemma_rem_start(t, root, g0, ord, d);
        assert(p1 == rem_p1(t, d, pr));
        lemma_rem_end_at(o, m, *self, d, p1);
        reveal(lift); reveal(pull); reveal(cut);
        let (n, u) = (tv(self.a), cleared(rem_t(t, d, pr), p1));
        assert forall|q: P::Inx| n.dom().contains(q) <==> t2.dom().contains(q) by {}
        assert(n[p1] == u[p1]);
        assert forall|q: P::Inx| n.dom().contains(q) implies n[q] == u[q] by {
            if q != p1 { assert(n[q] == t2[q]); }
        }
        assert(n =~= u);
        g = choose|g: IMap<P::Inx, IV>| #[trigger] t_ok(tv(self.a), self.root, g, ord2);
    }
@loop 1
    invariant_except_break
        self.a.wf(), kv_same(m.a, self.a), t_ok(tv(self.a), self.root, g, ord2), rem_inv(tv(self.a), p1, p0),
    invariant
        self.first == ord2[0], self.last == ord2.last(), ord2.len() <= usize::MAX,
    ensures self.a.wf(), kv_same(m.a, self.a), t_okx(tv(self.a), self.root, ord2), r_all(tv(self.a)),
    decreases ord2.len() - (g[p1].hi - g[p1].lo),
@body 1
    let ghost t1 = tv(self.a);
    let ghost root1 = self.root;
    let ghost (q0, q1) = (p0, p1);
    let ghost s = sib(t1, p1, p0);
    let ghost na = nephew(t1, p1, p0, s.unwrap(), true);
    let ghost nb = nephew(t1, p1, p0, s.unwrap(), false);
    proof {
        lemma_rem_facts(t1, root1, g, ord2, p1, p0);
        if t1[p1].back is Some { lemma_up(t1, root1, g, ord2, p1); }
        if s is Some && rk(t1, p0) + 2 < t1[p1].rank && t1[s.unwrap()].rank + 2 != t1[p1].rank
            && rk(t1, nb) + 1 != t1[s.unwrap()].rank && rk(t1, na) + 2 != t1[s.unwrap()].rank {
            lemma_rem_rot2(t1, root1, g, ord2, p1, p0, s.unwrap());
            lemma_rot2_vals(t1, root1, g, ord2, na.unwrap(), s.unwrap(), p1);
        }
    }
@break 1
    proof {
        let n = tv(self.a);
        if s is None {
            lemma_rem_leaf(t1, root1, g, ord2, q1, q0);
            assert(n =~= set_rank(t1, q1, 1));
            assert(t_ok(n, self.root, g, ord2));
        } else if rk(t1, q0) + 2 >= t1[q1].rank {
            lemma_rem_done(t1, root1, g, ord2, q1, q0);
        } else if t1[s.unwrap()].rank + 2 == t1[q1].rank {
            lemma_rem_demote(t1, root1, g, ord2, q1, q0);
            lemma_set_rank(t1, root1, g, ord2, q1, t1[s.unwrap()].rank + 1);
            assert(n =~= set_rank(t1, q1, t1[s.unwrap()].rank + 1));
        } else if rk(t1, nb) + 1 == t1[s.unwrap()].rank {
            lemma_rem_rot1(t1, root1, g, ord2, q1, q0, s.unwrap());
            lemma_rot(t1, root1, g, ord2, s.unwrap(), q1);
            let u = rot(t1, s.unwrap(), q1);
            let (root3, g3) = (rot_root(t1, root1, s.unwrap(), q1), rotg(t1, g, s.unwrap(), q1));
            lemma_set_rank(u, root3, g3, ord2, q1, rk(t1, na) + 1);
            let u1 = set_rank(u, q1, rk(t1, na) + 1);
            lemma_set_rank(u1, root3, g3, ord2, s.unwrap(), t1[q1].rank);
            reveal(rot);
            assert(n =~= set_rank(u1, s.unwrap(), t1[q1].rank));
            assert(self.root == root3);
        } else if rk(t1, na) + 2 == t1[s.unwrap()].rank {
            lemma_rem_demote2(t1, root1, g, ord2, q1, q0, s.unwrap());
            lemma_set_rank(t1, root1, g, ord2, s.unwrap(), rk(t1, q0) + 1);
            let u = set_rank(t1, s.unwrap(), rk(t1, q0) + 1);
            lemma_set_rank(u, root1, g, ord2, q1, rk(t1, q0) + 2);
            assert(n =~= set_rank(u, q1, rk(t1, q0) + 2));
        } else {
            lemma_rem_rot2(t1, root1, g, ord2, q1, q0, s.unwrap());
            let a = na.unwrap();
            let ra = t1[a].rank;
            lemma_rot2_vals(t1, root1, g, ord2, a, s.unwrap(), q1);
            let root3 = rot2_root(t1, root1, a, s.unwrap(), q1);
            let u = rot2(t1, a, s.unwrap(), q1);
            let g3 = choose|g2: IMap<P::Inx, IV>| #[trigger] t_ok(u, root3, g2, ord2);
            lemma_set_rank(u, root3, g3, ord2, a, t1[q1].rank);
            let u1 = set_rank(u, a, t1[q1].rank);
            lemma_set_rank(u1, root3, g3, ord2, s.unwrap(), ra);
            let u2 = set_rank(u1, s.unwrap(), ra);
            lemma_set_rank(u2, root3, g3, ord2, q1, ra);
            assert(n =~= set_rank(u2, q1, ra));
            assert(self.root == root3);
        }
        assert(t_okx(n, self.root, ord2));
    }
@continue 1
    proof {
        let n = tv(self.a);
        if s is None {
            lemma_rem_leaf(t1, root1, g, ord2, q1, q0);
            assert(n =~= set_rank(t1, q1, 1));
        } else if t1[s.unwrap()].rank + 2 == t1[q1].rank {
            lemma_rem_demote(t1, root1, g, ord2, q1, q0);
            lemma_set_rank(t1, root1, g, ord2, q1, t1[s.unwrap()].rank + 1);
            assert(n =~= set_rank(t1, q1, t1[s.unwrap()].rank + 1));
        } else {
            lemma_rem_demote2(t1, root1, g, ord2, q1, q0, s.unwrap());
            lemma_set_rank(t1, root1, g, ord2, s.unwrap(), rk(t1, q0) + 1);
            let u = set_rank(t1, s.unwrap(), rk(t1, q0) + 1);
            lemma_set_rank(u, root1, g, ord2, q1, rk(t1, q0) + 2);
            assert(n =~= set_rank(u, q1, rk(t1, q0) + 2));
        }
    }
@end
    proof { lemma_rem_end(o, m, *self, d); }
