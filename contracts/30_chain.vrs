@@module chain_spec chain/chain_arena.rs
@@text
broadcast use {ptr_axioms, ax_vec_len, ax_vec_cap, arena_lemmas};
@@type Link
#[verifier::reject_recursive_types(P)]
@@type ChainArena
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(T)]
@@text props=C01,C02,C03
pub open spec fn idx<P: Ptr>(p: P) -> int {
    p.sinx().ival()
}

pub open spec fn is_at<P: Ptr>(o: Option<P>, j: int) -> bool {
    o is Some && idx(o.unwrap()) == j
}

/// What the interlinks of the link at `i` require of the links they name
pub open spec fn sym_at<P: Ptr, T>(m: Seq<InternalEntry<P, Link<P, T>>>, i: int, g: P::Gen, l: Link<P, T>) -> bool {
    &&& match l.prev_next.1 {
        Some(q) => match entx(m, idx(q)) {
            Some((h, k)) => h == q.sgen() && k.prev_next.0 == Some(mkp::<P>(i, g)),
            None => false,
        },
        None => true,
    }
    &&& match l.prev_next.0 {
        Some(q) => match entx(m, idx(q)) {
            Some((h, k)) => h == q.sgen() && k.prev_next.1 == Some(mkp::<P>(i, g)),
            None => false,
        },
        None => true,
    }
}

/// Interlinks are symmetric, and name valid links
pub open spec fn sym<P: Ptr, T>(m: Seq<InternalEntry<P, Link<P, T>>>) -> bool {
    forall|i: int| match #[trigger] ent(m, i) {
        Some((g, l)) => sym_at(m, i, g, l),
        None => true,
    }
}

/// Validity, generation and interlinks of position `i` are the same
pub open spec fn links_eq<P: Ptr, T, U>(a: Seq<InternalEntry<P, Link<P, T>>>, b: Seq<InternalEntry<P, Link<P, U>>>, i: int) -> bool {
    match (ent(a, i), ent(b, i)) {
        (None, None) => true,
        (Some((g, l)), Some((h, k))) => g == h && l.prev_next == k.prev_next,
        _ => false,
    }
}

pub proof fn lemma_sym_kept<P: Ptr, T, U>(a: Seq<InternalEntry<P, Link<P, T>>>, b: Seq<InternalEntry<P, Link<P, U>>>)
    requires sym(a), forall|i: int| #![trigger ent(b, i)] links_eq(a, b, i),
    ensures sym(b),
{
    assert forall|i: int| match #[trigger] ent(b, i) {
        Some((g, l)) => sym_at(b, i, g, l),
        None => true,
    } by {
        assert(links_eq(a, b, i));
        if let Some((g, l)) = ent(b, i) {
            assert(ent(a, i) is Some);
            if let Some(q) = l.prev_next.1 { assert(links_eq(a, b, idx(q))); assert(ent(b, idx(q)) == entx(b, idx(q))); }
            if let Some(q) = l.prev_next.0 { assert(links_eq(a, b, idx(q))); assert(ent(b, idx(q)) == entx(b, idx(q))); }
        }
    }
}

/// The entry with its interlinks replaced
pub open spec fn lset<P: Ptr, T>(e: Option<(P::Gen, Link<P, T>)>, sp: bool, vp: Option<P>, sn: bool, vn: Option<P>) -> Option<(P::Gen, Link<P, T>)> {
    match e {
        None => None,
        Some((g, l)) => Some((g, Link {
            prev_next: (if sp { vp } else { l.prev_next.0 }, if sn { vn } else { l.prev_next.1 }),
            t: l.t,
        })),
    }
}

impl<P: Ptr, T> ChainArena<P, T> {
    pub open spec fn wf(self) -> bool {
        self.a.wf() && sym(self.a.m@)
    }

    pub open spec fn has(self, p: P) -> bool {
        self.a.has(p)
    }

    pub open spec fn nx(self, p: P) -> Option<P> {
        self.a.val(p).prev_next.1
    }

    pub open spec fn pv(self, p: P) -> Option<P> {
        self.a.val(p).prev_next.0
    }

    /// A link can be inserted between these
    pub open spec fn ins_ok(self, pn: (Option<P>, Option<P>)) -> bool {
        match pn {
            (None, None) => true,
            (None, Some(p1)) => self.has(p1),
            (Some(p0), None) => self.has(p0),
            (Some(p0), Some(p1)) => self.has(p0) && self.nx(p0) == Some(p1),
        }
    }

    /// The neighbors that a link inserted at `pn` gets
    pub open spec fn ins_at(self, pn: (Option<P>, Option<P>)) -> (Option<P>, Option<P>) {
        match pn {
            (None, Some(p1)) => (self.pv(p1), Some(p1)),
            (Some(p0), None) => (Some(p0), self.nx(p0)),
            _ => pn,
        }
    }

    /// `p` is a new link with neighbors `pn`, and nothing else changed
    pub open spec fn inserted(self, o: Self, p: P, pn: (Option<P>, Option<P>)) -> bool {
        &&& p.sgen() == o.a.generation
        &&& o.a.at(idx(p)) is None
        &&& self.has(p)
        &&& self.a.val(p).prev_next == pn
        &&& self.a.len == o.a.len + 1
        &&& forall|j: int| #![trigger ent(self.a.m@, j)] j != idx(p) ==>
            ent(self.a.m@, j) == lset(ent(o.a.m@, j), is_at(pn.1, j), Some(p), is_at(pn.0, j), Some(p))
    }

    /// capacity, length and generation are unchanged
    pub open spec fn keep(self, o: Self) -> bool {
        &&& self.a.cap() == o.a.cap()
        &&& self.a.len == o.a.len
        &&& self.a.generation == o.a.generation
    }

    /// capacity and length are unchanged, and one generation is spent
    pub open spec fn keep_inc(self, o: Self, n: int) -> bool {
        &&& self.a.cap() == o.a.cap()
        &&& self.a.len == o.a.len - n
        &&& self.a.gen() == o.a.gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int })
    }

    pub open spec fn keep_cap(self, o: Self) -> bool {
        &&& self.a.cap() >= o.a.cap()
        &&& o.a.len < o.a.cap() ==> self.a.cap() == o.a.cap()
    }
}
@@text props=C01
/// Inserting next to valid neighbors keeps the interlinks symmetric
pub proof fn lemma_sym_inserted<P: Ptr, T>(o: ChainArena<P, T>, n: ChainArena<P, T>, p: P, pn: (Option<P>, Option<P>))
    requires o.wf(), o.ins_ok(pn), n.inserted(o, p, o.ins_at(pn)), idx(p) <= n.a.cap(),
    ensures sym(n.a.m@),
{
    let x = o.ins_at(pn);
    let (om, nm) = (o.a.m@, n.a.m@);
    if x.0 is Some { assert(ent(om, idx(x.0.unwrap())) is Some); assert(ent(nm, idx(x.0.unwrap())) is Some); }
    if x.1 is Some { assert(ent(om, idx(x.1.unwrap())) is Some); assert(ent(nm, idx(x.1.unwrap())) is Some); }
    assert forall|i: int| match #[trigger] ent(nm, i) { Some((g, l)) => sym_at(nm, i, g, l), None => true } by {
        if ent(nm, i) is Some {
            let l = ent(nm, i).unwrap().1;
            if l.prev_next.0 is Some { let q = idx(l.prev_next.0.unwrap()); assert(ent(nm, q) == entx(nm, q)); assert(ent(om, q) == entx(om, q)); }
            if l.prev_next.1 is Some { let q = idx(l.prev_next.1.unwrap()); assert(ent(nm, q) == entx(nm, q)); assert(ent(om, q) == entx(om, q)); }
            if i != idx(p) {
                let ol = ent(om, i).unwrap().1;
                if ol.prev_next.0 is Some { let q = idx(ol.prev_next.0.unwrap()); assert(ent(nm, q) == entx(nm, q)); assert(ent(om, q) == entx(om, q)); }
                if ol.prev_next.1 is Some { let q = idx(ol.prev_next.1.unwrap()); assert(ent(nm, q) == entx(nm, q)); assert(ent(om, q) == entx(om, q)); }
            }
        }
    }
}

/// `p` was replaced by `q`, and nothing else changed
pub open spec fn renamed<P: Ptr, T>(om: Seq<InternalEntry<P, Link<P, T>>>, nm: Seq<InternalEntry<P, Link<P, T>>>, p: P, q: P) -> bool {
    let l = ent(om, idx(p)).unwrap().1;
    &&& ent(nm, idx(p)) == lset(Some((q.sgen(), l)), is_at(l.prev_next.1, idx(p)), Some(q), is_at(l.prev_next.0, idx(p)), Some(q))
    &&& forall|j: int| #![trigger ent(nm, j)] j != idx(p) ==> ent(nm, j)
        == lset(ent(om, j), is_at(l.prev_next.1, j), Some(q), is_at(l.prev_next.0, j), Some(q))
}

pub proof fn lemma_sym_renamed<P: Ptr, T>(om: Seq<InternalEntry<P, Link<P, T>>>, nm: Seq<InternalEntry<P, Link<P, T>>>, p: P, q: P)
    requires sym(om), om.len() <= <P::Inx as PtrInx>::maxi(), ent(om, idx(p)) is Some, p.sgen() == ent(om, idx(p)).unwrap().0, q.sinx() == p.sinx(), renamed(om, nm, p, q),
    ensures sym(nm),
{
    assert forall|i: int| match #[trigger] ent(nm, i) { Some((g, l)) => sym_at(nm, i, g, l), None => true } by {
        if ent(nm, i) is Some {
            let l = ent(nm, i).unwrap().1;
            let ol = ent(om, i).unwrap().1;
            assert(ent(om, i) is Some);
            assert(ent(om, idx(p)) is Some);
            if ol.prev_next.0 is Some { let q = idx(ol.prev_next.0.unwrap()); assert(ent(nm, q) == entx(nm, q)); assert(ent(om, q) == entx(om, q)); }
            if ol.prev_next.1 is Some { let q = idx(ol.prev_next.1.unwrap()); assert(ent(nm, q) == entx(nm, q)); assert(ent(om, q) == entx(om, q)); }
        }
    }
}
@@text props=C03
/// `path` lists a whole chain in order: all links between a start and an end,
/// or once around a cycle
pub open spec fn is_chain<P: Ptr, T>(c: ChainArena<P, T>, path: Seq<P>) -> bool {
    &&& path.len() > 0
    &&& is_run(c, path)
    &&& (c.pv(path[0]) is None && c.nx(path.last()) is None) || c.nx(path.last()) == Some(path[0])
}

/// consecutive links, each at most once
pub open spec fn is_run<P: Ptr, T>(c: ChainArena<P, T>, path: Seq<P>) -> bool {
    &&& forall|k: int| 0 <= k < path.len() ==> c.has(#[trigger] path[k])
    &&& forall|k: int| #![trigger path[k]] 0 <= k < path.len() - 1 ==> c.nx(path[k]) == Some(path[k + 1])
    &&& forall|j: int, k: int| #![trigger path[j], path[k]] 0 <= j < k < path.len() ==> idx(path[j]) != idx(path[k])
}

/// some link of `path` is at raw index `i`
pub open spec fn on<P: Ptr>(path: Seq<P>, i: int) -> bool {
    exists|k: int| 0 <= k < path.len() && idx(#[trigger] path[k]) == i
}

/// a valid pointer is determined by its index
pub proof fn lemma_has_idx<P: Ptr, T>(c: ChainArena<P, T>, p: P, q: P)
    requires c.has(p), c.has(q), idx(p) == idx(q),
    ensures p == q,
{
}

/// the neighbor of a link is valid and names it
pub proof fn lemma_nb<P: Ptr, T>(c: ChainArena<P, T>, p: P)
    requires c.wf(), c.has(p),
    ensures
        c.nx(p) is Some ==> c.has(c.nx(p).unwrap()) && c.pv(c.nx(p).unwrap()) == Some(p),
        c.pv(p) is Some ==> c.has(c.pv(p).unwrap()) && c.nx(c.pv(p).unwrap()) == Some(p),
{
    assert(ent(c.a.m@, idx(p)) is Some);
    assert(mkp::<P>(idx(p), p.sgen()) == p);
    if c.nx(p) is Some { let q = idx(c.nx(p).unwrap()); assert(ent(c.a.m@, q) == entx(c.a.m@, q)); }
    if c.pv(p) is Some { let q = idx(c.pv(p).unwrap()); assert(ent(c.a.m@, q) == entx(c.a.m@, q)); }
}

/// The successor of the last link of a run is outside of the run, or its start
pub proof fn lemma_run_push<P: Ptr, T>(c: ChainArena<P, T>, path: Seq<P>, q: P)
    requires c.wf(), is_run(c, path), path.len() > 0, c.nx(path.last()) == Some(q), idx(q) != idx(path[0]),
    ensures is_run(c, path.push(q)), !on(path, idx(q)), c.has(q),
{
    lemma_nb(c, path.last());
    if on(path, idx(q)) {
        let k = choose|k: int| 0 <= k < path.len() && idx(#[trigger] path[k]) == idx(q);
        lemma_has_idx(c, path[k], q);
        lemma_nb(c, path[k - 1]);
        assert(c.pv(q) == Some(path[k - 1]));
        assert(path[k - 1] == path.last());
    }
}

/// The predecessor of the first link of a run that has an end is outside of it
pub proof fn lemma_run_front<P: Ptr, T>(c: ChainArena<P, T>, path: Seq<P>, q: P)
    requires c.wf(), is_run(c, path), path.len() > 0, c.nx(path.last()) is None, c.pv(path[0]) == Some(q),
    ensures is_run(c, seq![q] + path), !on(path, idx(q)), c.has(q),
{
    lemma_nb(c, path[0]);
    if on(path, idx(q)) {
        let k = choose|k: int| 0 <= k < path.len() && idx(#[trigger] path[k]) == idx(q);
        lemma_has_idx(c, path[k], q);
        if k < path.len() - 1 {
            assert(path[k + 1] == path[0]);
        }
    }
    let n = seq![q] + path;
    assert forall|k: int| 0 <= k < n.len() implies c.has(#[trigger] n[k]) by {
        if k > 0 { assert(n[k] == path[k - 1]); }
    }
    assert forall|k: int| #![trigger n[k]] 0 <= k < n.len() - 1 implies c.nx(n[k]) == Some(n[k + 1]) by {
        if k > 0 { assert(n[k] == path[k - 1]); assert(n[k + 1] == path[k]); } else { assert(n[1] == path[0]); }
    }
    assert forall|j: int, k: int| #![trigger n[j], n[k]] 0 <= j < k < n.len() implies idx(n[j]) != idx(n[k]) by {
        assert(n[k] == path[k - 1]);
        if j > 0 { assert(n[j] == path[j - 1]); }
    }
}

/// `n` is `o` without the links of `path`
pub open spec fn without<P: Ptr, T>(o: Seq<InternalEntry<P, Link<P, T>>>, n: Seq<InternalEntry<P, Link<P, T>>>, path: Seq<P>) -> bool {
    forall|i: int| #![trigger ent(n, i)] ent(n, i) == (if on(path, i) { None } else { ent(o, i) })
}

/// Removing whole chains keeps the rest symmetric
pub proof fn lemma_sym_without<P: Ptr, T>(c: ChainArena<P, T>, n: Seq<InternalEntry<P, Link<P, T>>>, path: Seq<P>)
    requires c.wf(), is_chain(c, path), without(c.a.m@, n, path),
    ensures sym(n),
{
    let m = c.a.m@;
    assert forall|i: int| match #[trigger] ent(n, i) { Some((g, l)) => sym_at(n, i, g, l), None => true } by {
        if ent(n, i) is Some {
            let (g, l) = ent(n, i).unwrap();
            let p = mkp::<P>(i, g);
            assert(c.has(p) && c.a.val(p) == l);
            lemma_nb(c, p);
            if c.nx(p) is Some {
                let q = c.nx(p).unwrap();
                assert(ent(n, idx(q)) == entx(n, idx(q)));
                if on(path, idx(q)) {
                    let k = choose|k: int| 0 <= k < path.len() && idx(#[trigger] path[k]) == idx(q);
                    lemma_has_idx(c, path[k], q);
                    if k > 0 {
                        lemma_nb(c, path[k - 1]);
                        assert(path[k - 1] == p);
                    } else {
                        lemma_nb(c, path.last());
                        assert(path[path.len() - 1] == p);
                    }
                    assert(on(path, i));
                }
            }
            if c.pv(p) is Some {
                let q = c.pv(p).unwrap();
                assert(ent(n, idx(q)) == entx(n, idx(q)));
                if on(path, idx(q)) {
                    let k = choose|k: int| 0 <= k < path.len() && idx(#[trigger] path[k]) == idx(q);
                    lemma_has_idx(c, path[k], q);
                    if k < path.len() - 1 {
                        assert(path[k + 1] == p);
                    } else {
                        assert(path[0] == p);
                    }
                    assert(on(path, i));
                }
            }
        }
    }
}

pub proof fn lemma_without_push<P: Ptr, T>(o: Seq<InternalEntry<P, Link<P, T>>>, n: Seq<InternalEntry<P, Link<P, T>>>, n2: Seq<InternalEntry<P, Link<P, T>>>, path: Seq<P>, path2: Seq<P>, q: P)
    requires without(o, n, path), path2 == path.push(q) || path2 == seq![q] + path,
        ent(n2, idx(q)) is None,
        forall|i: int| #![trigger ent(n2, i)] i != idx(q) ==> ent(n2, i) == ent(n, i),
    ensures without(o, n2, path2),
{
    let d = if path2 == path.push(q) { 0int } else { 1int };
    assert forall|i: int| on(path2, i) <==> on(path, i) || i == idx(q) by {
        if on(path, i) {
            let k = choose|k: int| 0 <= k < path.len() && idx(#[trigger] path[k]) == i;
            assert(path2[k + d] == path[k]);
        }
        if i == idx(q) {
            if d == 0 { assert(path2[path.len() as int] == q); } else { assert(path2[0] == q); }
        }
        if on(path2, i) && i != idx(q) {
            let k = choose|k: int| 0 <= k < path2.len() && idx(#[trigger] path2[k]) == i;
            assert(path2[k] == path[k - d]);
        }
    }
}
@@module chain_arena chain/chain_arena.rs
@@text
broadcast use {ptr_axioms, ax_vec_len, ax_vec_cap, arena_lemmas};
@@fn Link::prev props=C01,C02,C03,C04
    ensures r == self.prev_next.0,
@@fn Link::next props=C01,C02,C03,C04
    ensures r == self.prev_next.1,
@@fn Link::prev_next props=C01,C02,C03,C04
    ensures r == self.prev_next,
@@fn Link::new props=C01,C02,C03,C04
    ensures r.prev_next == prev_next, r.t == t,
@@fn ChainArena::new props=C01,A04
    ensures r.wf(), r.a.len == 0, r.a.gen() == 2, r.a.cap() == 0, r.a.none_left(),
@@fn ChainArena::with_capacity props=C01,A03
    requires capacity <= <P::Inx as PtrInx>::maxi(),
    ensures r.wf(), r.a.len == 0, r.a.gen() == 2, r.a.cap() == capacity, r.a.none_left(),
@@fn ChainArena::len props=C02
    ensures r == self.a.len,
@@fn ChainArena::is_empty props=C02
    ensures r == (self.a.len == 0),
@@fn ChainArena::capacity props=A03
    ensures r == self.a.cap(),
@@fn ChainArena::generation props=A04
    ensures r == self.a.generation,
@@fn ChainArena::reserve props=A03,C01
    requires old(self).wf(), old(self).a.cap() + additional <= <P::Inx as PtrInx>::maxi(),
    ensures final(self).wf(), final(self).a.cap() == old(self).a.cap() + additional,
        final(self).a.same(old(self).a), final(self).a.generation == old(self).a.generation,
@@fn ChainArena::contains props=C02,A01
    requires self.a.m.wf(),
    ensures r == self.has(p),
@@fn ChainArena::are_neighbors props=C02,C03
    requires self.a.m.wf(),
    ensures r == (self.has(p_prev) && self.nx(p_prev) == Some(p_next)),
@@fn ChainArena::insert props=C01,C02,A03,A04
@attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
    requires old(self).wf(), old(self).a.len < <P::Inx as PtrInx>::maxi(),
    ensures final(self).wf(), final(self).a.generation == old(self).a.generation, final(self).keep_cap(*old(self)),
        match r {
            Ok(p) => old(self).ins_ok(prev_next) && final(self).inserted(*old(self), p, old(self).ins_at(prev_next))
                && final(self).a.val(p).t == t,
            Err(u) => u == t && !old(self).ins_ok(prev_next) && final(self).a.same(old(self).a),
        },
@end
    proof { if __r is Ok { lemma_sym_inserted(*old(self), *self, __r->Ok_0, prev_next); } }
@@fn ChainArena::insert_with props=C01,C02,A03,A04
@attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
    requires old(self).wf(), old(self).a.len < <P::Inx as PtrInx>::maxi(), forall|p: P| create.requires((p,)),
    ensures final(self).wf(), final(self).a.generation == old(self).a.generation, final(self).keep_cap(*old(self)),
        match r {
            Some(p) => old(self).ins_ok(prev_next) && final(self).inserted(*old(self), p, old(self).ins_at(prev_next))
                && create.ensures((p,), final(self).a.val(p).t),
            None => !old(self).ins_ok(prev_next) && final(self).a.same(old(self).a),
        },
@closure 0
    -> (l: Link<P, T>) ensures l.prev_next == (None::<P>, None::<P>), create.ensures(($0,), l.t)
@closure 1
    -> (l: Link<P, T>) ensures l.prev_next == (Some(p0), Some(p1)), create.ensures(($0,), l.t)
@closure 2
    -> (l: Link<P, T>) ensures l.prev_next == (None::<P>, Some(p1)), create.ensures(($0,), l.t)
@closure 3
    -> (l: Link<P, T>) ensures l.prev_next == (Some(p0), Some(p1)), create.ensures(($0,), l.t)
@closure 4
    -> (l: Link<P, T>) ensures l.prev_next == (Some(p0), None::<P>), create.ensures(($0,), l.t)
@closure 5
    -> (l: Link<P, T>) ensures l.prev_next == (Some(p0), Some(p1)), create.ensures(($0,), l.t)
@end
    proof { if __r is Some { lemma_sym_inserted(*old(self), *self, __r.unwrap(), prev_next); } }
@@fn ChainArena::insert_new props=C01,C02,A03,A04
    requires old(self).wf(), old(self).a.len < <P::Inx as PtrInx>::maxi(),
    ensures final(self).wf(), final(self).a.generation == old(self).a.generation, final(self).keep_cap(*old(self)),
        final(self).inserted(*old(self), r, (None, None)), final(self).a.val(r).t == t,
@@fn ChainArena::insert_new_with props=C01,C02,A03,A04
    requires old(self).wf(), old(self).a.len < <P::Inx as PtrInx>::maxi(), forall|p: P| create.requires((p,)),
    ensures final(self).wf(), final(self).a.generation == old(self).a.generation, final(self).keep_cap(*old(self)),
        final(self).inserted(*old(self), r, (None, None)), create.ensures((r,), final(self).a.val(r).t),
@closure 0
    -> (l: Link<P, T>) ensures l.prev_next == (None::<P>, None::<P>), create.ensures(($0,), l.t)
@@fn ChainArena::insert_new_cyclic props=C01,C02,A03,A04
    requires old(self).wf(), old(self).a.len < <P::Inx as PtrInx>::maxi(),
    ensures final(self).wf(), final(self).a.generation == old(self).a.generation, final(self).keep_cap(*old(self)),
        final(self).inserted(*old(self), r, (Some(r), Some(r))), final(self).a.val(r).t == t,
@closure 0
    -> (l: Link<P, T>) ensures l.prev_next == (Some($0), Some($0)), l.t == t
@@fn ChainArena::insert_new_cyclic_with props=C01,C02,A03,A04
    requires old(self).wf(), old(self).a.len < <P::Inx as PtrInx>::maxi(), forall|p: P| create.requires((p,)),
    ensures final(self).wf(), final(self).a.generation == old(self).a.generation, final(self).keep_cap(*old(self)),
        final(self).inserted(*old(self), r, (Some(r), Some(r))), create.ensures((r,), final(self).a.val(r).t),
@closure 0
    -> (l: Link<P, T>) ensures l.prev_next == (Some($0), Some($0)), create.ensures(($0,), l.t)
@@fn ChainArena::insert_start props=C01,C02,A03,A04
    requires old(self).wf(), old(self).a.len < <P::Inx as PtrInx>::maxi(),
    ensures final(self).wf(), final(self).a.generation == old(self).a.generation, final(self).keep_cap(*old(self)),
        match r {
            Ok(p) => old(self).has(p_start) && old(self).pv(p_start) is None
                && final(self).inserted(*old(self), p, (None, Some(p_start))) && final(self).a.val(p).t == t,
            Err(u) => u == t && !(old(self).has(p_start) && old(self).pv(p_start) is None) && final(self).a.same(old(self).a),
        },
@@fn ChainArena::insert_end props=C01,C02,A03,A04
    requires old(self).wf(), old(self).a.len < <P::Inx as PtrInx>::maxi(),
    ensures final(self).wf(), final(self).a.generation == old(self).a.generation, final(self).keep_cap(*old(self)),
        match r {
            Ok(p) => old(self).has(p_end) && old(self).nx(p_end) is None
                && final(self).inserted(*old(self), p, (Some(p_end), None)) && final(self).a.val(p).t == t,
            Err(u) => u == t && !(old(self).has(p_end) && old(self).nx(p_end) is None) && final(self).a.same(old(self).a),
        },
@@fn ChainArena::get_link props=C02,A01
    requires self.a.m.wf(),
    ensures match r { Some(l) => self.has(p) && *l == self.a.val(p), None => !self.has(p) },
@@fn ChainArena::get props=C02,A01
    requires self.a.m.wf(),
    ensures match r { Some(t) => self.has(p) && *t == self.a.val(p).t, None => !self.has(p) },
@@fn ChainArena::get_link_mut props=C01,C02,A01
    requires old(self).a.m.wf(),
    ensures final(self).a.m.wf(), match r {
            Some(l) => old(self).has(p) && l.prev_next == old(self).a.val(p).prev_next && *l.t == old(self).a.val(p).t
                && final(self).a.at(idx(p)) == Some((p.sgen(), Link { prev_next: old(self).a.val(p).prev_next, t: *final(l.t) }))
                && final(self).a.same_except(old(self).a, idx(p)),
            None => !old(self).has(p) && final(self).a.same(old(self).a),
        },
        final(self).keep(*old(self)), old(self).wf() ==> final(self).wf(),
@@fn ChainArena::get2_link_mut props=C01,C02,A01
    requires old(self).a.m.wf(),
    ensures final(self).a.m.wf(), match r {
            Some((l0, l1)) => old(self).has(p0) && old(self).has(p1) && p0 != p1
                && l0.prev_next == old(self).a.val(p0).prev_next && *l0.t == old(self).a.val(p0).t
                && l1.prev_next == old(self).a.val(p1).prev_next && *l1.t == old(self).a.val(p1).t
                && final(self).a.at(idx(p0)) == Some((p0.sgen(), Link { prev_next: old(self).a.val(p0).prev_next, t: *final(l0.t) }))
                && final(self).a.at(idx(p1)) == Some((p1.sgen(), Link { prev_next: old(self).a.val(p1).prev_next, t: *final(l1.t) }))
                && final(self).a.same_except2(old(self).a, idx(p0), idx(p1)),
            None => (p0 == p1 || !old(self).has(p0) || !old(self).has(p1)) && final(self).a.same(old(self).a),
        },
        final(self).keep(*old(self)), old(self).wf() ==> final(self).wf(),
@@fn ChainArena::get_mut props=C01,C02,A01
    requires old(self).a.m.wf(),
    ensures final(self).a.m.wf(), match r {
            Some(t) => old(self).has(p) && *t == old(self).a.val(p).t
                && final(self).a.at(idx(p)) == Some((p.sgen(), Link { prev_next: old(self).a.val(p).prev_next, t: *final(t) }))
                && final(self).a.same_except(old(self).a, idx(p)),
            None => !old(self).has(p) && final(self).a.same(old(self).a),
        },
        final(self).keep(*old(self)), old(self).wf() ==> final(self).wf(),
@@fn ChainArena as Index::index name=vp_index mono=B:P props=C01,C02,A01
    requires self.a.m.wf(), self.has(index),
    ensures *r == self.a.val(index).t,
@@fn ChainArena as IndexMut::index_mut name=vp_index_mut mono=B:P props=C01,C02,A01
    requires old(self).a.m.wf(), old(self).has(index),
    ensures final(self).a.m.wf(), *r == old(self).a.val(index).t,
        final(self).a.at(idx(index)) == Some((index.sgen(), Link { prev_next: old(self).a.val(index).prev_next, t: *final(r) })),
        final(self).a.same_except(old(self).a, idx(index)),
        final(self).keep(*old(self)), old(self).wf() ==> final(self).wf(),
@@fn ChainArena::get2_mut props=C01,C02,A01
    requires old(self).a.m.wf(),
    ensures final(self).a.m.wf(), match r {
            Some((t0, t1)) => old(self).has(p0) && old(self).has(p1) && p0 != p1
                && *t0 == old(self).a.val(p0).t && *t1 == old(self).a.val(p1).t
                && final(self).a.at(idx(p0)) == Some((p0.sgen(), Link { prev_next: old(self).a.val(p0).prev_next, t: *final(t0) }))
                && final(self).a.at(idx(p1)) == Some((p1.sgen(), Link { prev_next: old(self).a.val(p1).prev_next, t: *final(t1) }))
                && final(self).a.same_except2(old(self).a, idx(p0), idx(p1)),
            None => (p0 == p1 || !old(self).has(p0) || !old(self).has(p1)) && final(self).a.same(old(self).a),
        },
        final(self).keep(*old(self)), old(self).wf() ==> final(self).wf(),
@@fn ChainArena::remove props=C01,C02,A01,A04
@attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
    requires old(self).wf(),
    ensures final(self).wf(), final(self).a.step(old(self).a),
        match r {
            Some(l) => old(self).has(p) && l == old(self).a.val(p) && final(self).a.at(idx(p)) is None
                && final(self).keep_inc(*old(self), 1)
                && (<P::Gen as PtrGen>::counted() ==> final(self).a.dead(p))
                && forall|j: int| #![trigger ent(final(self).a.m@, j)] j != idx(p) ==> ent(final(self).a.m@, j)
                    == lset(ent(old(self).a.m@, j), is_at(l.prev_next.1, j), l.prev_next.0, is_at(l.prev_next.0, j), l.prev_next.1),
            None => !old(self).has(p) && final(self).a.same(old(self).a),
        },
@@fn ChainArena::invalidate props=C01,C02,A01,A04
@attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
    requires old(self).wf(),
    ensures final(self).wf(), final(self).a.step(old(self).a),
        match r {
            Some(q) => old(self).has(p) && q.sinx() == p.sinx() && final(self).keep_inc(*old(self), 0)
                && q.sgen().gval() == final(self).a.gen()
                && (<P::Gen as PtrGen>::counted() ==> final(self).a.dead(p))
                && renamed(old(self).a.m@, final(self).a.m@, p, q),
            None => !old(self).has(p) && final(self).a.same(old(self).a),
        },
@end
    proof { lemma_sym_renamed(old(self).a.m@, self.a.m@, p, __r.unwrap()); }
@@fn ChainArena::replace_and_keep_gen props=C01,C02,A01,A04
    requires old(self).wf(),
    ensures final(self).wf(), final(self).keep(*old(self)),
        match r {
            Ok(t) => old(self).has(p) && t == old(self).a.val(p).t
                && final(self).a.at(idx(p)) == Some((p.sgen(), Link { prev_next: old(self).a.val(p).prev_next, t: new }))
                && final(self).a.same_except(old(self).a, idx(p)),
            Err(t) => t == new && !old(self).has(p) && final(self).a.same(old(self).a),
        },
@@fn ChainArena::replace_and_update_gen props=C01,C02,A01,A04
    requires old(self).wf(),
    ensures final(self).wf(), final(self).a.step(old(self).a),
        match r {
            Ok((t, q)) => old(self).has(p) && q.sinx() == p.sinx() && final(self).keep_inc(*old(self), 0)
                && t == old(self).a.val(p).t
                && q.sgen().gval() == final(self).a.gen()
                && (<P::Gen as PtrGen>::counted() ==> final(self).a.dead(p))
                && ({
                    let l = Link { prev_next: old(self).a.val(p).prev_next, t: new };
                    &&& final(self).a.at(idx(p)) == lset(Some((q.sgen(), l)), is_at(l.prev_next.1, idx(p)), Some(q), is_at(l.prev_next.0, idx(p)), Some(q))
                    &&& forall|j: int| #![trigger ent(final(self).a.m@, j)] j != idx(p) ==> ent(final(self).a.m@, j)
                        == lset(ent(old(self).a.m@, j), is_at(l.prev_next.1, j), Some(q), is_at(l.prev_next.0, j), Some(q))
                }),
            Err(t) => t == new && !old(self).has(p) && final(self).a.same(old(self).a),
        },
@@fn ChainArena::swap props=C01,C02,A01
    requires old(self).wf(),
    ensures final(self).wf(), final(self).keep(*old(self)),
        match r {
            Some(_) => old(self).has(p0) && old(self).has(p1)
                && final(self).a.at(idx(p0)) == Some((p0.sgen(), Link { prev_next: old(self).a.val(p0).prev_next, t: old(self).a.val(p1).t }))
                && final(self).a.at(idx(p1)) == Some((p1.sgen(), Link { prev_next: old(self).a.val(p1).prev_next, t: old(self).a.val(p0).t }))
                && final(self).a.same_except2(old(self).a, idx(p0), idx(p1)),
            None => !(old(self).has(p0) && old(self).has(p1)) && final(self).a.same(old(self).a),
        },
@@fn ChainArena::connect props=C01,C02
    requires old(self).wf(),
    ensures final(self).wf(), final(self).keep(*old(self)),
        r is Some <==> old(self).has(p_prev) && old(self).has(p_next) && old(self).nx(p_prev) is None && old(self).pv(p_next) is None,
        r is None ==> final(self).a.same(old(self).a),
        r is Some ==> forall|j: int| #![trigger ent(final(self).a.m@, j)] ent(final(self).a.m@, j)
            == lset(ent(old(self).a.m@, j), j == idx(p_next), Some(p_prev), j == idx(p_prev), Some(p_next)),
@@fn ChainArena::break_prev props=C01,C02
    requires old(self).wf(),
    ensures final(self).wf(), final(self).keep(*old(self)),
        r is Some <==> old(self).has(p) && old(self).pv(p) is Some,
        r is None ==> final(self).a.same(old(self).a),
        r is Some ==> forall|j: int| #![trigger ent(final(self).a.m@, j)] ent(final(self).a.m@, j)
            == lset(ent(old(self).a.m@, j), j == idx(p), None, is_at(old(self).pv(p), j), None),
@@fn ChainArena::break_next props=C01,C02
    requires old(self).wf(),
    ensures final(self).wf(), final(self).keep(*old(self)),
        r is Some <==> old(self).has(p) && old(self).nx(p) is Some,
        r is None ==> final(self).a.same(old(self).a),
        r is Some ==> forall|j: int| #![trigger ent(final(self).a.m@, j)] ent(final(self).a.m@, j)
            == lset(ent(old(self).a.m@, j), is_at(old(self).nx(p), j), None, j == idx(p), None),
@@fn ChainArena::exchange_next props=C01,C02
@attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
    requires old(self).wf(),
    ensures final(self).wf(), final(self).keep(*old(self)),
        r is Some <==> old(self).has(p0) && old(self).has(p1) && old(self).nx(p0) is Some && old(self).nx(p1) is Some,
        r is None ==> final(self).a.same(old(self).a),
        r is Some ==> forall|j: int| #![trigger ent(final(self).a.m@, j)] ent(final(self).a.m@, j)
            == lset(ent(old(self).a.m@, j),
                is_at(old(self).nx(p0), j) || is_at(old(self).nx(p1), j),
                Some(if is_at(old(self).nx(p1), j) { p0 } else { p1 }),
                j == idx(p0) || j == idx(p1),
                if j == idx(p1) { old(self).nx(p0) } else { old(self).nx(p1) }),
@@fn ChainArena::clear props=C01,A03,A04,A05
    requires old(self).wf(),
    ensures final(self).wf(), final(self).a.none_left(), final(self).keep_inc(*old(self), old(self).a.len as int),
@@fn ChainArena::clear_and_shrink props=C01,A03,A04,A05
    requires old(self).wf(),
    ensures final(self).wf(), final(self).a.none_left(), final(self).a.len == 0, final(self).a.cap() == 0,
        final(self).a.gen() == old(self).a.gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int }),
@@fn ChainArena::get_no_gen props=C02,A01
    requires self.a.m.wf(),
    ensures match r { Some((g, l)) => self.a.at(p.ival()) == Some((g, *l)), None => self.a.at(p.ival()) is None },
@@fn ChainArena::get_no_gen_mut props=C01,C02,A01
    requires old(self).a.m.wf(),
    ensures final(self).a.m.wf(), match r {
            Some((g, l)) => old(self).a.at(p.ival()) == Some((g, Link { prev_next: l.prev_next, t: *l.t }))
                && final(self).a.at(p.ival()) == Some((g, Link { prev_next: l.prev_next, t: *final(l.t) }))
                && final(self).a.same_except(old(self).a, p.ival()),
            None => old(self).a.at(p.ival()) is None && final(self).a.same(old(self).a),
        },
        final(self).keep(*old(self)), old(self).wf() ==> final(self).wf(),
@@fn ChainArena::get_inx_unwrap props=C02,A01
    requires self.a.m.wf(), self.a.at(p.ival()) is Some,
    ensures *r == self.a.at(p.ival()).unwrap().1,
@@fn ChainArena::get_inx_mut_unwrap props=C01,C02,A01
    requires old(self).a.m.wf(), old(self).a.at(p.ival()) is Some,
    ensures final(self).a.m.wf(), ({
            let (g, l) = old(self).a.at(p.ival()).unwrap();
            &&& r.prev_next == l.prev_next && *r.t == l.t
            &&& final(self).a.at(p.ival()) == Some((g, Link { prev_next: l.prev_next, t: *final(r.t) }))
        }),
        final(self).a.same_except(old(self).a, p.ival()),
        final(self).keep(*old(self)), old(self).wf() ==> final(self).wf(),
@@fn ChainArena::get_inx_mut_unwrap_t props=C01,C02,A01
    requires old(self).a.m.wf(), old(self).a.at(p.ival()) is Some,
    ensures final(self).a.m.wf(), ({
            let (g, l) = old(self).a.at(p.ival()).unwrap();
            &&& *r == l.t
            &&& final(self).a.at(p.ival()) == Some((g, Link { prev_next: l.prev_next, t: *final(r) }))
        }),
        final(self).a.same_except(old(self).a, p.ival()),
        final(self).keep(*old(self)), old(self).wf() ==> final(self).wf(),
@@fn ChainArena::remove_chain props=C01,C03,A04
    requires old(self).wf(),
    ensures final(self).wf(),
        match r {
            Some(n) => old(self).has(p) && exists|path: Seq<P>| #[trigger] is_chain(*old(self), path) && path.contains(p)
                && n == path.len() && without(old(self).a.m@, final(self).a.m@, path) && final(self).keep_inc(*old(self), path.len() as int),
            None => !old(self).has(p) && final(self).a.same(old(self).a),
        },
@start
    let ghost mut path: Seq<P> = seq![p];
@before 0
    proof {
        let o = *old(self);
        assert(path[0] == p);
        assert(is_run(o, path));
        lemma_nb(o, p);
        assert forall|i: int| #![trigger ent(self.a.m@, i)] ent(self.a.m@, i) == (if on(path, i) { None } else { ent(o.a.m@, i) }) by {
            assert(on(path, i) <==> i == idx(p));
        }
    }
@loop 0
    invariant
        old(self).wf(), old(self).has(p), self.a.wf(), init == old(self).a.val(p),
        is_run(*old(self), path), path.len() > 0, path[0] == p, tmp == old(self).nx(path.last()),
        without(old(self).a.m@, self.a.m@, path),
        len == path.len(), self.keep_inc(*old(self), path.len() as int),
    ensures tmp is None,
    decreases self.a.len,
@body 0
    proof {
        lemma_nb(*old(self), path.last());
        if tmp is Some && idx(tmp.unwrap()) == idx(p) {
            lemma_has_idx(*old(self), tmp.unwrap(), p);
            assert(is_chain(*old(self), path));
            assert(path.contains(p));
            lemma_sym_without(*old(self), self.a.m@, path);
        }
    }
@pre remove_internal_inx_unwrap 0
    let ghost m1 = self.a.m@;
    proof {
        lemma_run_push(*old(self), path, next);
        assert(ent(self.a.m@, idx(next)) is Some);
    }
@at remove_internal_inx_unwrap 0
    proof {
        let path2 = path.push(next);
        lemma_without_push(old(self).a.m@, m1, self.a.m@, path, path2, next);
        path = path2;
    }
@loop 1
    invariant
        old(self).wf(), old(self).has(p), self.a.wf(),
        is_run(*old(self), path), path.len() > 0, path.contains(p), tmp == old(self).pv(path[0]),
        old(self).nx(path.last()) is None,
        without(old(self).a.m@, self.a.m@, path),
        len == path.len(), self.keep_inc(*old(self), path.len() as int),
    ensures tmp is None,
    decreases self.a.len,
@pre remove_internal_inx_unwrap 1
    let ghost m1 = self.a.m@;
    proof {
        lemma_run_front(*old(self), path, prev);
        assert(ent(self.a.m@, idx(prev)) is Some);
    }
@at remove_internal_inx_unwrap 1
    proof {
        let path2 = seq![prev] + path;
        lemma_without_push(old(self).a.m@, m1, self.a.m@, path, path2, prev);
        let k = choose|k: int| 0 <= k < path.len() && path[k] == p;
        assert(path2[k + 1] == p);
        path = path2;
    }
@end
    proof { lemma_sym_without(*old(self), self.a.m@, path); }
@@fn ChainArena::_check_interlinks props=C04,E02
    requires this.a.wf(),
    ensures r is Ok <==> sym(this.a.m@),
@loop 0
    invariant this.a.wf(), $it.arena == &this.a, err is Err,
        forall|i: int| #![trigger ent(this.a.m@, i)] i < $it.adv.inx@ ==> match ent(this.a.m@, i) {
            Some((g, l)) => sym_at(this.a.m@, i, g, l),
            None => true,
        },
    ensures forall|i: int| #![trigger ent(this.a.m@, i)] i >= $it.adv.inx@ ==> ent(this.a.m@, i) is None,
    decreases this.a.m@.len() + 1 - $it.adv.inx@,
@@fn ChainArena::from_arena props=C04,E02
    requires arena.wf(),
    ensures match r { Ok(c) => c.wf() && c.a == arena, Err(_) => !sym(arena.m@) },
@@text props=C04,A07
/// the links kept, with the values mapped
pub open spec fn lmapped<P: Ptr, T, U, F: Fn(P, &Link<P, U>) -> T>(f: F, o: Seq<InternalEntry<P, Link<P, U>>>, n: Seq<InternalEntry<P, Link<P, T>>>, i: int) -> bool {
    match ent(o, i) {
        None => ent(n, i) is None,
        Some((g, u)) => ent(n, i) is Some && ent(n, i).unwrap().0 == g && ent(n, i).unwrap().1.prev_next == u.prev_next
            && f.ensures((mkp::<P>(i, g), &u), ent(n, i).unwrap().1.t),
    }
}
@@fn ChainArena::clone_from_with props=C01,C04,A07
    requires old(self).a.wf(), source.wf(), mappable(map, source.a.m@),
    ensures final(self).wf(), final(self).a.generation == source.a.generation, final(self).a.len == source.a.len,
        final(self).a.cap() == (if source.a.cap() < old(self).a.cap() { old(self).a.cap() } else { source.a.cap() }),
        forall|i: int| #![trigger ent(final(self).a.m@, i)] lmapped(map, source.a.m@, final(self).a.m@, i),
@closure 0
    -> (l: Link<P, T>) requires map.requires(($0, $1)) ensures l.prev_next == $1.prev_next, map.ensures(($0, $1), l.t)
@end
    proof {
        assert forall|i: int| #![trigger ent(self.a.m@, i)] links_eq(source.a.m@, self.a.m@, i) by {
            assert(lmapped(map, source.a.m@, self.a.m@, i));
        }
        lemma_sym_kept(source.a.m@, self.a.m@);
    }
@@impl Link as Clone props=C04
@in clone contract
    ensures r.prev_next == self.prev_next, cloned(self.t, r.t)
@@text props=C04
/// entry `i` was cloned with its links
pub open spec fn lcloned<P: Ptr, T: Clone>(o: Seq<InternalEntry<P, Link<P, T>>>, n: Seq<InternalEntry<P, Link<P, T>>>, i: int) -> bool {
    match ent(o, i) {
        None => ent(n, i) is None,
        Some((g, u)) => ent(n, i) is Some && ent(n, i).unwrap().0 == g && ent(n, i).unwrap().1.prev_next == u.prev_next
            && cloned(u.t, ent(n, i).unwrap().1.t),
    }
}
@@fn ChainArena as Clone::clone props=C01,C04,A07
    requires self.wf(),
    ensures r.wf(), r.a.generation == self.a.generation, r.a.len == self.a.len, r.a.cap() == self.a.cap(),
        forall|i: int| #![trigger ent(r.a.m@, i)] lcloned(self.a.m@, r.a.m@, i),
@end
    proof {
        assert forall|i: int| #![trigger ent(__r.a.m@, i)] lcloned(self.a.m@, __r.a.m@, i) by {
            assert(ent_cloned(self.a.m@, __r.a.m@, i));
        }
        assert forall|i: int| #![trigger ent(__r.a.m@, i)] links_eq(self.a.m@, __r.a.m@, i) by {
            assert(lcloned(self.a.m@, __r.a.m@, i));
        }
        lemma_sym_kept(self.a.m@, __r.a.m@);
    }
@@fn ChainArena as Clone::clone_from props=C01,C04,A07
    requires old(self).a.wf(), source.wf(),
    ensures final(self).wf(), final(self).a.generation == source.a.generation, final(self).a.len == source.a.len,
        final(self).a.cap() == (if source.a.cap() < old(self).a.cap() { old(self).a.cap() } else { source.a.cap() }),
        forall|i: int| #![trigger ent(final(self).a.m@, i)] lcloned(source.a.m@, final(self).a.m@, i),
@end
    proof {
        assert forall|i: int| #![trigger ent(self.a.m@, i)] lcloned(source.a.m@, self.a.m@, i) by {
            assert(ent_cloned(source.a.m@, self.a.m@, i));
        }
        assert forall|i: int| #![trigger ent(self.a.m@, i)] links_eq(source.a.m@, self.a.m@, i) by {
            assert(lcloned(source.a.m@, self.a.m@, i));
        }
        lemma_sym_kept(source.a.m@, self.a.m@);
    }
@@impl Link as PartialEq props=C04
@@text props=C04
use vstd::std_specs::cmp::*;
impl<P: Ptr, T: PartialEq> PartialEqSpecImpl for Link<P, T> {
    open spec fn obeys_eq_spec() -> bool { T::obeys_eq_spec() }
    open spec fn eq_spec(&self, other: &Self) -> bool { self.prev_next == other.prev_next && self.t.eq_spec(&other.t) }
}
@@fn ChainArena as PartialEq::eq opcall props=C04,A07
    requires self.wf(), other.wf(), T::obeys_eq_spec(),
    ensures r == forall|i: int| #![trigger ent(self.a.m@, i)] #![trigger ent(other.a.m@, i)] ents_eq(self.a.m@, other.a.m@, i),
@@fn ChainArena::clone_to_arena props=C04,A07
    requires self.wf(), old(arena).wf(), mappable(map, self.a.m@),
    ensures final(arena).wf(), final(arena).generation == self.a.generation, final(arena).len == self.a.len,
        final(arena).cap() == (if self.a.cap() < old(arena).cap() { old(arena).cap() } else { self.a.cap() }),
        forall|i: int| #![trigger ent(final(arena).m@, i)] mapped(map, self.a.m@, final(arena).m@, i),
@@text props=C04
/// the interlink under the renumbering `f`
pub open spec fn tr<P: Ptr>(f: Map<int, P>, o: Option<P>) -> Option<P> {
    match o {
        Some(p) => Some(f[idx(p)]),
        None => None,
    }
}

/// The link at `i` of `o` was moved to `f[i]` in `n`, was reported to `map`,
/// and its interlinks follow, except that the marked ones are still missing
#[verifier::prophetic]
pub open spec fn moved_link<P: Ptr, T, F: Fn(P, &mut T, P)>(map: F, o: Seq<InternalEntry<P, Link<P, T>>>, n: Seq<InternalEntry<P, Link<P, T>>>, f: Map<int, P>, g: P::Gen, i: int, sp: bool, sn: bool) -> bool {
    let q = f[i];
    match (ent(o, i), ent(n, idx(q))) {
        (Some((h, l)), Some((g2, k))) => {
            &&& g2 == g && q.sgen() == g
            &&& called3(map, mkp::<P>(i, h), l.t, k.t, q)
            &&& k.prev_next.0 == (if sp { None } else { tr(f, l.prev_next.0) })
            &&& k.prev_next.1 == (if sn { None } else { tr(f, l.prev_next.1) })
            &&& !sp && l.prev_next.0 is Some ==> f.dom().contains(idx(l.prev_next.0.unwrap()))
            &&& !sn && l.prev_next.1 is Some ==> f.dom().contains(idx(l.prev_next.1.unwrap()))
        },
        _ => false,
    }
}

/// `f` renumbers some of the links of `o` to exactly those of `n`. `first` and
/// `last` are missing an interlink.
#[verifier::prophetic]
pub open spec fn moving<P: Ptr, T, F: Fn(P, &mut T, P)>(map: F, o: Seq<InternalEntry<P, Link<P, T>>>, n: Seq<InternalEntry<P, Link<P, T>>>, f: Map<int, P>, b: Map<int, int>, g: P::Gen, first: Option<P>, last: Option<P>) -> bool {
    &&& forall|i: int| #[trigger] f.dom().contains(i) ==> moved_link(map, o, n, f, g, i, is_at(first, i), is_at(last, i)) && b[idx(f[i])] == i
    &&& forall|j: int| #![trigger ent(n, j)] ent(n, j) is Some ==> f.dom().contains(b[j]) && idx(f[b[j]]) == j
}

/// `m` is `o` without the links that were moved
pub open spec fn remaining<P: Ptr, T>(o: Seq<InternalEntry<P, Link<P, T>>>, m: Seq<InternalEntry<P, Link<P, T>>>, f: Map<int, P>) -> bool {
    forall|i: int| #![trigger ent(m, i)] #![trigger f.dom().contains(i)] ent(m, i) == (if f.dom().contains(i) { None } else { ent(o, i) })
}

/// `n` is a renumbering of all of `o` that was reported to `map`
#[verifier::prophetic]
pub open spec fn renumbered<P: Ptr, T, F: Fn(P, &mut T, P)>(map: F, o: Seq<InternalEntry<P, Link<P, T>>>, n: Seq<InternalEntry<P, Link<P, T>>>, f: Map<int, P>, b: Map<int, int>, g: P::Gen) -> bool {
    &&& forall|i: int| #![trigger f.dom().contains(i)] #![trigger ent(o, i)] f.dom().contains(i) <==> ent(o, i) is Some
    &&& moving(map, o, n, f, b, g, None, None)
}

pub open spec fn inx_of<P: Ptr>(o: Option<P>) -> Option<P::Inx> {
    match o {
        Some(p) => Some(p.sinx()),
        None => None,
    }
}

/// with each moved link its neighbors
pub open spec fn closed_under<P: Ptr, T>(c: ChainArena<P, T>, f: Map<int, P>) -> bool {
    forall|p: P| #[trigger] c.has(p) && f.dom().contains(idx(p)) ==>
        (c.nx(p) is Some ==> f.dom().contains(idx(c.nx(p).unwrap()))) && (c.pv(p) is Some ==> f.dom().contains(idx(c.pv(p).unwrap())))
}

/// `d` and the links of `path`
pub open spec fn dom_is<P: Ptr>(f: Map<int, P>, d: Map<int, P>, path: Seq<P>) -> bool {
    forall|i: int| #![trigger f.dom().contains(i)] #![trigger d.dom().contains(i)] #![trigger on(path, i)]
        (f.dom().contains(i) <==> d.dom().contains(i) || on(path, i)) && !(d.dom().contains(i) && on(path, i))
}

pub proof fn lemma_outside_next<P: Ptr, T>(c: ChainArena<P, T>, a: Arena<P, Link<P, T>>, f: Map<int, P>, d: Map<int, P>, path: Seq<P>, q: P)
    requires c.wf(), remaining(c.a.m@, a.m@, f), is_run(c, path), path.len() > 0, dom_is(f, d, path), closed_under(c, d),
        c.nx(path.last()) == Some(q), q != path[0],
    ensures a.has(q), a.val(q) == c.a.val(q), f.dom().contains(idx(path[0])), f.dom().contains(idx(path.last())), c.has(path[0]), c.has(path.last()), !f.dom().contains(idx(q)), c.has(q), c.pv(q) == Some(path.last()), is_run(c, path.push(q)),
        forall|x: P| dom_is(#[trigger] f.insert(idx(q), x), d, path.push(q)),
{
    lemma_nb(c, path.last());
    if idx(q) == idx(path[0]) { lemma_has_idx(c, q, path[0]); }
    lemma_run_push(c, path, q);
    assert(on(path, idx(path.last())));
    assert(on(path, idx(path[0])));
    assert(!d.dom().contains(idx(q)));
    let np = path.push(q);
    assert forall|i: int| on(np, i) <==> (on(path, i) || i == idx(q)) by {
        if on(path, i) { let k = choose|k: int| 0 <= k < path.len() && idx(#[trigger] path[k]) == i; assert(np[k] == path[k]); }
        assert(np[path.len() as int] == q);
    }
}

pub proof fn lemma_outside_prev<P: Ptr, T>(c: ChainArena<P, T>, a: Arena<P, Link<P, T>>, f: Map<int, P>, d: Map<int, P>, path: Seq<P>, q: P)
    requires c.wf(), remaining(c.a.m@, a.m@, f), is_run(c, path), path.len() > 0, dom_is(f, d, path), closed_under(c, d),
        c.pv(path[0]) == Some(q), c.nx(path.last()) is None,
    ensures a.has(q), a.val(q) == c.a.val(q), f.dom().contains(idx(path[0])), c.has(path[0]), !f.dom().contains(idx(q)), c.has(q), c.nx(q) == Some(path[0]), is_run(c, seq![q] + path),
        forall|x: P| dom_is(#[trigger] f.insert(idx(q), x), d, seq![q] + path),
{
    lemma_nb(c, path[0]);
    lemma_run_front(c, path, q);
    assert(on(path, idx(path[0])));
    assert(!d.dom().contains(idx(q)));
    let np = seq![q] + path;
    assert forall|i: int| on(np, i) <==> (on(path, i) || i == idx(q)) by {
        if on(path, i) { let k = choose|k: int| 0 <= k < path.len() && idx(#[trigger] path[k]) == i; assert(np[k + 1] == path[k]); }
        assert(np[0] == q);
    }
}

pub proof fn lemma_closed_chain<P: Ptr, T>(c: ChainArena<P, T>, f: Map<int, P>, d: Map<int, P>, path: Seq<P>)
    requires c.wf(), is_chain(c, path), dom_is(f, d, path), closed_under(c, d),
    ensures closed_under(c, f),
{
    assert forall|p: P| #[trigger] c.has(p) && f.dom().contains(idx(p)) implies
        (c.nx(p) is Some ==> f.dom().contains(idx(c.nx(p).unwrap()))) && (c.pv(p) is Some ==> f.dom().contains(idx(c.pv(p).unwrap()))) by {
        lemma_nb(c, p);
        if !d.dom().contains(idx(p)) {
            assert(on(path, idx(p)));
            let k = choose|k: int| 0 <= k < path.len() && idx(#[trigger] path[k]) == idx(p);
            lemma_has_idx(c, p, path[k]);
            lemma_nb(c, path.last());
            if k + 1 < path.len() { assert(on(path, idx(path[k + 1]))); } else { assert(on(path, idx(path[0]))); }
            if k > 0 { lemma_nb(c, path[k - 1]); assert(on(path, idx(path[k - 1]))); } else { assert(on(path, idx(path.last()))); }
        }
    }
}

/// One more link is moved, and up to two that wait for an interlink to it are completed
pub proof fn lemma_move<P: Ptr, T, F: Fn(P, &mut T, P)>(map: F, c: ChainArena<P, T>, n: Seq<InternalEntry<P, Link<P, T>>>, n2: Seq<InternalEntry<P, Link<P, T>>>, f: Map<int, P>, b: Map<int, int>, g: P::Gen,
    first: Option<P>, last: Option<P>, first2: Option<P>, last2: Option<P>, p: P, q: P)
    requires
        c.wf(), c.has(p), moving(map, c.a.m@, n, f, b, g, first, last), !f.dom().contains(idx(p)), ent(n, idx(q)) is None,
        moved_link(map, c.a.m@, n2, f.insert(idx(p), q), g, idx(p), is_at(first2, idx(p)), is_at(last2, idx(p))),
        first2 == first || is_at(first2, idx(p)) || first2 is None,
        last2 == last || is_at(last2, idx(p)) || last2 is None,
        first is Some ==> c.has(first.unwrap()) && f.dom().contains(idx(first.unwrap())),
        last is Some ==> c.has(last.unwrap()) && f.dom().contains(idx(last.unwrap())),
        first is Some && first2 != first ==> c.pv(first.unwrap()) == Some(p),
        last is Some && last2 != last ==> c.nx(last.unwrap()) == Some(p),
        forall|j: int| #![trigger ent(n2, j)] j != idx(q) ==> ent(n2, j) == lset(ent(n, j),
            first is Some && first2 != first && j == idx(f[idx(first.unwrap())]), Some(q),
            last is Some && last2 != last && j == idx(f[idx(last.unwrap())]), Some(q)),
    ensures moving(map, c.a.m@, n2, f.insert(idx(p), q), b.insert(idx(q), idx(p)), g, first2, last2),
{
    let f2 = f.insert(idx(p), q);
    let b2 = b.insert(idx(q), idx(p));
    let o = c.a.m@;
    assert forall|i: int| #[trigger] f2.dom().contains(i) implies moved_link(map, o, n2, f2, g, i, is_at(first2, i), is_at(last2, i)) && b2[idx(f2[i])] == i by {
        if i != idx(p) {
            assert(f.dom().contains(i));
            assert(moved_link(map, o, n, f, g, i, is_at(first, i), is_at(last, i)));
            let j = idx(f[i]);
            assert(ent(n, j) is Some);
            assert(ent(n2, j) is Some);
            if first is Some { assert(f.dom().contains(idx(first.unwrap()))); }
            if last is Some { assert(f.dom().contains(idx(last.unwrap()))); }
        }
    }
    assert forall|j: int| #![trigger ent(n2, j)] ent(n2, j) is Some implies f2.dom().contains(b2[j]) && idx(f2[b2[j]]) == j by {
        if j != idx(q) {
            assert(ent(n, j) is Some);
            assert(f.dom().contains(b[j]));
        }
    }
}

/// a link is moved from `a` to `n`
pub proof fn lemma_move_step<P: Ptr, T, F: Fn(P, &mut T, P)>(map: F, c: ChainArena<P, T>, a: Arena<P, Link<P, T>>, a2: Arena<P, Link<P, T>>, n: Arena<P, Link<P, T>>, n2: Arena<P, Link<P, T>>,
    f: Map<int, P>, b: Map<int, int>, g: P::Gen, first: Option<P>, last: Option<P>, first2: Option<P>, last2: Option<P>, p: P, q: P, l: Link<P, T>)
    requires
        c.wf(), c.has(p), moving(map, c.a.m@, n.m@, f, b, g, first, last), remaining(c.a.m@, a.m@, f), !f.dom().contains(idx(p)),
        a2.at(idx(p)) is None, a2.same_except(a, idx(p)),
        n.at(idx(q)) is None, q.sgen() == g, n2.at(idx(q)) == Some((g, l)), called3(map, p, c.a.val(p).t, l.t, q),
        l.prev_next.0 == (if first2 == Some(p) { None } else { tr(f.insert(idx(p), q), c.pv(p)) }),
        l.prev_next.1 == (if last2 == Some(p) { None } else { tr(f.insert(idx(p), q), c.nx(p)) }),
        first2 != Some(p) && c.pv(p) is Some && c.pv(p) != Some(p) ==> f.dom().contains(idx(c.pv(p).unwrap())),
        last2 != Some(p) && c.nx(p) is Some && c.nx(p) != Some(p) ==> f.dom().contains(idx(c.nx(p).unwrap())),
        first2 == first || first2 == Some(p) || first2 is None,
        last2 == last || last2 == Some(p) || last2 is None,
        first is Some ==> c.has(first.unwrap()) && f.dom().contains(idx(first.unwrap())),
        last is Some ==> c.has(last.unwrap()) && f.dom().contains(idx(last.unwrap())),
        first is Some && first2 != first ==> c.pv(first.unwrap()) == Some(p),
        last is Some && last2 != last ==> c.nx(last.unwrap()) == Some(p),
        forall|j: int| #![trigger ent(n2.m@, j)] j != idx(q) ==> ent(n2.m@, j) == lset(ent(n.m@, j),
            first is Some && first2 != first && j == idx(f[idx(first.unwrap())]), Some(q),
            last is Some && last2 != last && j == idx(f[idx(last.unwrap())]), Some(q)),
    ensures moving(map, c.a.m@, n2.m@, f.insert(idx(p), q), b.insert(idx(q), idx(p)), g, first2, last2),
        remaining(c.a.m@, a2.m@, f.insert(idx(p), q)),
        forall|hi: int| #![trigger none_in(a2.m@, 1, hi)] none_in(a.m@, 1, hi) ==> none_in(a2.m@, 1, hi),
{
    assert(ent(n2.m@, idx(q)) is Some);
    assert(ent(c.a.m@, idx(p)) is Some);
    lemma_nb(c, p);
    assert(mkp::<P>(idx(p), p.sgen()) == p);
    assert(first2 is Some && c.has(first2.unwrap()) ==> (is_at(first2, idx(p)) <==> first2 == Some(p)));
    assert(last2 is Some && c.has(last2.unwrap()) ==> (is_at(last2, idx(p)) <==> last2 == Some(p)));
    assert(moved_link(map, c.a.m@, n2.m@, f.insert(idx(p), q), g, idx(p), is_at(first2, idx(p)), is_at(last2, idx(p))));
    lemma_move(map, c, n.m@, n2.m@, f, b, g, first, last, first2, last2, p, q);
    assert forall|hi: int| #![trigger none_in(a2.m@, 1, hi)] none_in(a.m@, 1, hi) implies none_in(a2.m@, 1, hi) by {
        assert forall|i: int| #![trigger ent(a2.m@, i)] 1 <= i < hi implies ent(a2.m@, i) is None by { assert(ent(a.m@, i) is None); }
    }
}

pub proof fn lemma_single<P: Ptr, T>(c: ChainArena<P, T>, d: Map<int, P>, p: P, q: P)
    requires c.has(p), !d.dom().contains(idx(p)),
    ensures is_run(c, seq![p]), dom_is(d.insert(idx(p), q), d, seq![p]), seq![p][0] == p, seq![p].last() == p,
        c.nx(p) == Some(p) ==> is_chain(c, seq![p]),
{
    let path = seq![p];
    assert forall|i: int| on(path, i) <==> i == idx(p) by { if i == idx(p) { assert(idx(path[0]) == i); } }
}

pub proof fn lemma_chain_ends<P: Ptr, T>(c: ChainArena<P, T>, path: Seq<P>)
    requires is_run(c, path), path.len() > 0, (c.pv(path[0]) is None && c.nx(path.last()) is None) || c.nx(path.last()) == Some(path[0]),
    ensures is_chain(c, path),
{
}

pub proof fn lemma_move_start<P: Ptr, T, F: Fn(P, &mut T, P)>(map: F, c: ChainArena<P, T>, a: Arena<P, Link<P, T>>, n: Arena<P, Link<P, T>>, g: P::Gen)
    requires a.m@ == c.a.m@, n.len == 0, n.wf(),
    ensures remaining(c.a.m@, a.m@, Map::empty()), moving(map, c.a.m@, n.m@, Map::empty(), Map::empty(), g, None, None), closed_under(c, Map::empty()),
{
    assert forall|i: int| ent(n.m@, i) is None by {}
}

pub proof fn lemma_all_moved<P: Ptr, T, F: Fn(P, &mut T, P)>(map: F, c: ChainArena<P, T>, a: Arena<P, Link<P, T>>, n: Seq<InternalEntry<P, Link<P, T>>>, f: Map<int, P>, b: Map<int, int>, g: P::Gen, i0: int)
    requires remaining(c.a.m@, a.m@, f), moving(map, c.a.m@, n, f, b, g, None, None), a.wf(),
        none_in(a.m@, 1, i0), none_in(a.m@, i0, a.cap() + 1),
    ensures renumbered(map, c.a.m@, n, f, b, g), a.len == 0,
{
    assert forall|i: int| 0 <= i < a.m@.len() implies (#[trigger] a.m@[i]) is Free by { assert(ent(a.m@, i + 1) is None); }
    lemma_cnt_zero(a.m@);
    assert forall|i: int| #![trigger f.dom().contains(i)] #![trigger ent(c.a.m@, i)] f.dom().contains(i) <==> ent(c.a.m@, i) is Some by {
        assert(ent(a.m@, i) is None);
        if f.dom().contains(i) { assert(moved_link(map, c.a.m@, n, f, g, i, false, false)); }
    }
}

pub proof fn lemma_moved_at<P: Ptr, T, F: Fn(P, &mut T, P)>(map: F, o: Seq<InternalEntry<P, Link<P, T>>>, n: Seq<InternalEntry<P, Link<P, T>>>, f: Map<int, P>, b: Map<int, int>, g: P::Gen, first: Option<P>, last: Option<P>, i: int)
    requires moving(map, o, n, f, b, g, first, last), f.dom().contains(i),
    ensures ent(n, idx(f[i])) is Some,
{
    assert(moved_link(map, o, n, f, g, i, is_at(first, i), is_at(last, i)));
}

pub proof fn lemma_run_has<P: Ptr, T>(c: ChainArena<P, T>, path: Seq<P>)
    requires is_run(c, path), path.len() > 0,
    ensures c.has(path[0]), c.has(path.last()),
{
}

/// one of the remaining links is the next to move
pub proof fn lemma_move_init<P: Ptr, T>(c: ChainArena<P, T>, a: Arena<P, Link<P, T>>, f: Map<int, P>, i0: int, p: P)
    requires c.wf(), remaining(c.a.m@, a.m@, f), a.has(p), none_in(a.m@, 1, i0), none_in(a.m@, i0, idx(p)),
    ensures c.has(p), !f.dom().contains(idx(p)), none_in(a.m@, 1, idx(p)), a.val(p) == c.a.val(p),
{
    assert(!f.dom().contains(idx(p)));
    assert(ent(a.m@, idx(p)) is Some);
}

/// the marked links have no further neighbor
pub proof fn lemma_move_done<P: Ptr, T, F: Fn(P, &mut T, P)>(map: F, c: ChainArena<P, T>, n: Seq<InternalEntry<P, Link<P, T>>>, f: Map<int, P>, b: Map<int, int>, g: P::Gen,
    first: Option<P>, last: Option<P>, first2: Option<P>)
    requires
        moving(map, c.a.m@, n, f, b, g, first, last), first2 == first || first2 is None,
        last is Some ==> c.has(last.unwrap()) && c.nx(last.unwrap()) is None,
        first is Some && first2 is None ==> c.has(first.unwrap()) && c.pv(first.unwrap()) is None,
    ensures moving(map, c.a.m@, n, f, b, g, first2, None),
{
    assert forall|i: int| #[trigger] f.dom().contains(i) implies moved_link(map, c.a.m@, n, f, g, i, is_at(first2, i), false) && b[idx(f[i])] == i by {
        assert(moved_link(map, c.a.m@, n, f, g, i, is_at(first, i), is_at(last, i)));
    }
}

pub proof fn lemma_sym_renumbered<P: Ptr, T, F: Fn(P, &mut T, P)>(map: F, c: ChainArena<P, T>, n: Seq<InternalEntry<P, Link<P, T>>>, f: Map<int, P>, b: Map<int, int>, g: P::Gen)
    requires c.wf(), renumbered(map, c.a.m@, n, f, b, g),
    ensures sym(n),
{
    let o = c.a.m@;
    assert forall|j: int| match #[trigger] ent(n, j) { Some((h, l)) => sym_at(n, j, h, l), None => true } by {
        if ent(n, j) is Some {
            let i = b[j];
            assert(f.dom().contains(i));
            assert(moved_link(map, o, n, f, g, i, false, false));
            let (h, l) = ent(o, i).unwrap();
            let p = mkp::<P>(i, h);
            assert(c.has(p));
            lemma_nb(c, p);
            assert(f[i] == mkp::<P>(j, g));
            if l.prev_next.0 is Some {
                let x = l.prev_next.0.unwrap();
                assert(f.dom().contains(idx(x)));
                assert(moved_link(map, o, n, f, g, idx(x), false, false));
                assert(ent(n, idx(f[idx(x)])) == entx(n, idx(f[idx(x)])));
            }
            if l.prev_next.1 is Some {
                let x = l.prev_next.1.unwrap();
                assert(f.dom().contains(idx(x)));
                assert(moved_link(map, o, n, f, g, idx(x), false, false));
                assert(ent(n, idx(f[idx(x)])) == entx(n, idx(f[idx(x)])));
            }
        }
    }
}
@@text props=C01,C04,A04
/// `f` renumbers the links of `o` to exactly those of `n` (`b` is its inverse),
/// with their values and neighbors
pub open spec fn kept<P: Ptr, T>(o: Seq<InternalEntry<P, Link<P, T>>>, n: Seq<InternalEntry<P, Link<P, T>>>, f: Map<int, P>, b: Map<int, int>, g: P::Gen) -> bool {
    &&& forall|i: int| #![trigger f.dom().contains(i)] #![trigger ent(o, i)] f.dom().contains(i) <==> ent(o, i) is Some
    &&& forall|i: int| #![trigger f.dom().contains(i)] #![trigger ent(o, i)] ent(o, i) is Some ==> b[idx(f[i])] == i && f[i].sgen() == g
        && ent(n, idx(f[i])) == Some((g, Link { t: ent(o, i).unwrap().1.t, prev_next: (tr(f, ent(o, i).unwrap().1.prev_next.0), tr(f, ent(o, i).unwrap().1.prev_next.1)) }))
    &&& forall|j: int| #![trigger ent(n, j)] ent(n, j) is Some ==> f.dom().contains(b[j]) && idx(f[b[j]]) == j
}

/// a `map` that changes nothing
pub proof fn lemma_kept<P: Ptr, T, F: Fn(P, &mut T, P)>(map: F, o: Seq<InternalEntry<P, Link<P, T>>>, n: Seq<InternalEntry<P, Link<P, T>>>, f: Map<int, P>, b: Map<int, int>, g: P::Gen)
    requires renumbered(map, o, n, f, b, g),
    ensures unchanging(map) ==> kept(o, n, f, b, g),
{
    assert forall|i: int| #![trigger f.dom().contains(i)] #![trigger ent(o, i)] ent(o, i) is Some && unchanging(map) implies b[idx(f[i])] == i && f[i].sgen() == g
        && ent(n, idx(f[i])) == Some((g, Link { t: ent(o, i).unwrap().1.t, prev_next: (tr(f, ent(o, i).unwrap().1.prev_next.0), tr(f, ent(o, i).unwrap().1.prev_next.1)) })) by {
        assert(f.dom().contains(i));
        assert(moved_link(map, o, n, f, g, i, false, false));
    }
}
@@fn ChainArena::compress_and_shrink props=C01,C04,A04
    requires old(self).wf(),
    ensures final(self).wf(), final(self).a.len == old(self).a.len, final(self).a.cap() == old(self).a.len,
        final(self).a.gen() == old(self).a.gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int }),
        exists|f: Map<int, P>, b: Map<int, int>| #[trigger] kept(old(self).a.m@, final(self).a.m@, f, b, final(self).a.generation),
@closure 0
    ensures *final($1) == *old($1)
@@fn ChainArena::compress_and_shrink_with props=C01,C04,A04
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::spinoff_prover] #[verifier::rlimit(60)]
    requires old(self).wf(), forall|p: P, t: &mut T, q: P| map.requires((p, t, q)),
    ensures final(self).wf(), final(self).a.len == old(self).a.len, final(self).a.cap() == old(self).a.len,
        final(self).a.gen() == old(self).a.gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int }),
        exists|f: Map<int, P>, b: Map<int, int>| #[trigger] renumbered(map, old(self).a.m@, final(self).a.m@, f, b, final(self).a.generation),
        unchanging(map) ==> exists|f: Map<int, P>, b: Map<int, int>| #[trigger] kept(old(self).a.m@, final(self).a.m@, f, b, final(self).a.generation),
@start
    hide(moving); hide(remaining); hide(closed_under); hide(dom_is); hide(is_run); hide(is_chain); hide(sym);
    let ghost o = *old(self);
    let ghost om = o.a.m@;
    let ghost map0 = map;
    let ghost mut f: Map<int, P> = Map::empty();
    let ghost mut b: Map<int, int> = Map::empty();
@before 0
    proof { lemma_move_start(map, o, self.a, new, generation); }
@loop 0
    invariant
        o.wf(), om == o.a.m@, map == map0, forall|p: P, t: &mut T, q: P| map.requires((p, t, q)),
        self.a.wf(), new.wf(), new.cap() == o.a.len, self.a.cap() == o.a.cap(), new.generation == generation,
        new.gen() == o.a.gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int }),
        new.len + self.a.len == o.a.len,
        none_in(self.a.m@, 1, adv.inx@ as int),
        remaining(om, self.a.m@, f), moving(map, om, new.m@, f, b, generation, None, None), closed_under(o, f),
    ensures none_in(self.a.m@, adv.inx@ as int, self.a.cap() + 1),
    decreases self.a.len,
@closure 0
    -> (l: Link<P, T>) ensures l.prev_next == (Some($0), Some($0)), l.t == link.t
@body 0
    let ghost d = f;
    let ghost n0 = new;
    let ghost l0 = self.a.len;
    let ghost adv0 = adv.inx@ as int;
    let ghost b0 = b;
@pre remove_internal 0
    let ghost pi = p_init;
    let ghost a0 = self.a;
    proof {
        lemma_move_init(o, self.a, f, adv0, pi);
        lemma_nb(o, pi);
    }
@at get_inx_mut_unwrap 0
    proof {
        f = d.insert(idx(pi), q);
        b = b0.insert(idx(q), idx(pi));
        lemma_has_idx(o, pi, link.prev_next.0.unwrap());
        lemma_move_step(map, o, a0, self.a, n0, new, d, b0, generation, None, None, None, None, pi, q, new.val(q));
        lemma_single(o, d, pi, q);
        lemma_closed_chain(o, f, d, seq![pi]);
    }
@at get_inx_mut_unwrap 1
    let ghost mut path = seq![pi];
    proof {
        f = d.insert(idx(pi), q_init);
        b = b0.insert(idx(q_init), idx(pi));
        lemma_move_step(map, o, a0, self.a, n0, new, d, b0, generation, None, None, Some(pi), Some(pi), pi, q_init, new.val(q_init));
        lemma_single(o, d, pi, q_init);
    }
@loop 1
    invariant
        o.wf(), om == o.a.m@, map == map0, forall|p: P, t: &mut T, q: P| map.requires((p, t, q)),
        self.a.wf(), new.wf(), new.cap() == o.a.len, self.a.cap() == o.a.cap(), new.generation == generation,
        new.gen() == o.a.gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int }),
        new.len + self.a.len == o.a.len,
        none_in(self.a.m@, 1, adv.inx@ as int),
        remaining(om, self.a.m@, f), moving(map, om, new.m@, f, b, generation, Some(pi), Some(path.last())),
        self.a.len < l0, closed_under(o, d), dom_is(f, d, path), is_run(o, path), path.len() > 0, path[0] == pi,
        q_init == f[idx(pi)], q_prev == f[idx(path.last())],
        p_init_prev == inx_of(o.pv(pi)), p_next == inx_of(o.nx(path.last())), o.nx(path.last()) != Some(pi),
    ensures p_next is None,
    decreases self.a.len,
@pre get_no_gen 0
    let ghost n1 = new;
    let ghost a1 = self.a;
    let ghost f1 = f;
    let ghost b1 = b;
    proof {
        let x = o.nx(path.last()).unwrap();
        lemma_nb(o, pi);
        lemma_outside_next(o, self.a, f, d, path, x);
        lemma_moved_at(map, om, new.m@, f, b, generation, Some(pi), Some(path.last()), idx(pi));
        lemma_moved_at(map, om, new.m@, f, b, generation, Some(pi), Some(path.last()), idx(path.last()));
    }
@pre remove_internal 1
    proof { lemma_has_idx(o, p, o.nx(path.last()).unwrap()); lemma_nb(o, p); }
@at get_inx_mut_unwrap 4
    proof {
        let x = o.pv(pi).unwrap();
        lemma_has_idx(o, p, x);
        f = f1.insert(idx(p), q);
        b = b1.insert(idx(q), idx(p));
        lemma_move_step(map, o, a1, self.a, n1, new, f1, b1, generation, Some(pi), Some(path.last()), None, None, p, q, new.val(q));
        let np = path.push(p);
        assert(np[0] == pi && np.last() == p);
        lemma_chain_ends(o, np);
        lemma_closed_chain(o, f, d, np);
    }
@at get_inx_mut_unwrap 6
    proof {
        f = f1.insert(idx(p), q);
        b = b1.insert(idx(q), idx(p));
        lemma_move_step(map, o, a1, self.a, n1, new, f1, b1, generation, Some(pi), Some(path.last()), Some(pi), Some(p), p, q, new.val(q));
        path = path.push(p);
        assert(path[0] == pi && path.last() == p);
        if o.nx(p) == Some(pi) { assert(o.pv(pi) == Some(p)); }
    }
@after 1
    proof { lemma_run_has(o, path); lemma_move_done(map, o, new.m@, f, b, generation, Some(pi), Some(path.last()), Some(pi)); }
@loop 2
    invariant
        o.wf(), om == o.a.m@, map == map0, forall|p: P, t: &mut T, q: P| map.requires((p, t, q)),
        self.a.wf(), new.wf(), new.cap() == o.a.len, self.a.cap() == o.a.cap(), new.generation == generation,
        new.gen() == o.a.gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int }),
        new.len + self.a.len == o.a.len,
        none_in(self.a.m@, 1, adv.inx@ as int),
        remaining(om, self.a.m@, f), moving(map, om, new.m@, f, b, generation, Some(path[0]), None),
        self.a.len < l0, closed_under(o, d), dom_is(f, d, path), is_run(o, path), path.len() > 0, o.nx(path.last()) is None,
        q_next == f[idx(path[0])], p_prev == inx_of(o.pv(path[0])),
    ensures p_prev is None,
    decreases self.a.len,
@pre get_no_gen 1
    let ghost n1 = new;
    let ghost a1 = self.a;
    let ghost f1 = f;
    let ghost b1 = b;
    proof {
        let x = o.pv(path[0]).unwrap();
        lemma_outside_prev(o, self.a, f, d, path, x);
        lemma_moved_at(map, om, new.m@, f, b, generation, Some(path[0]), None, idx(path[0]));
    }
@pre remove_internal 2
    proof { lemma_has_idx(o, p, o.pv(path[0]).unwrap()); }
@at get_inx_mut_unwrap 8
    proof {
        f = f1.insert(idx(p), q);
        b = b1.insert(idx(q), idx(p));
        lemma_move_step(map, o, a1, self.a, n1, new, f1, b1, generation, Some(path[0]), None, Some(p), None, p, q, new.val(q));
        let np = seq![p] + path;
        assert(np[0] == p && np.last() == path.last());
        path = np;
    }
@after 2
    proof {
        lemma_run_has(o, path);
        lemma_move_done(map, o, new.m@, f, b, generation, Some(path[0]), None, None);
        lemma_chain_ends(o, path);
        lemma_closed_chain(o, f, d, path);
    }
@after 0
    proof {
        lemma_all_moved(map, o, self.a, new.m@, f, b, generation, adv.inx@ as int);
        lemma_sym_renumbered(map, o, new.m@, f, b, generation);
        lemma_kept(map, om, new.m@, f, b, generation);
    }
@@end
@@end
@@module chain_iterators chain/chain_iterators.rs chain/chain_arena.rs
@@text
broadcast use {ptr_axioms, ax_vec_len, ax_vec_cap, arena_lemmas};
@@type PtrAdvancer
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(T)]
@@type ChainPtrAdvancer
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(T)]
@@type IterChain
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(T)]
@@text props=C03
/// position of a walk, its result, and its next position
pub open spec fn walk_next<P: Ptr, T>(c: ChainArena<P, T>, init: P, ptr: Option<P>, sw: bool) -> (Option<P>, bool) {
    if ptr is None || !c.has(ptr.unwrap()) {
        (None, sw)
    } else if sw {
        (c.pv(ptr.unwrap()), sw)
    } else {
        match c.nx(ptr.unwrap()) {
            Some(q) => if q == init { (None, sw) } else { (Some(q), sw) },
            None => (if c.has(init) { c.pv(init) } else { None }, true),
        }
    }
}

impl<P: Ptr, T> ChainPtrAdvancer<P, T> {
    /// `r` is what advancing from `o` to `self` returns
    pub open spec fn walked(self, o: Self, c: ChainArena<P, T>, r: Option<P>) -> bool {
        &&& self.init == o.init
        &&& o.max_advances == 0 ==> r is None && self == o
        &&& o.max_advances > 0 ==> {
            &&& self.max_advances == o.max_advances - 1
            &&& (self.ptr, self.switch) == walk_next(c, o.init, o.ptr, o.switch)
            &&& r == (if o.ptr is Some && c.has(o.ptr.unwrap()) { o.ptr } else { None })
        }
    }
}

/// The walk over `path` starting from its `k`th link, at its `n`th step: the
/// links from `k` to the end, and then the ones before `k`, going backward in
/// an open chain and forward in a cyclic one
pub open spec fn walk_at<P: Ptr, T>(c: ChainArena<P, T>, path: Seq<P>, k: int, n: int) -> int {
    if n < path.len() - k {
        k + n
    } else if c.nx(path.last()) is Some {
        n - (path.len() - k)
    } else {
        path.len() - 1 - n
    }
}

/// The state of the walk before its `n`th step
pub open spec fn walking<P: Ptr, T>(c: ChainArena<P, T>, path: Seq<P>, k: int, n: int, s: ChainPtrAdvancer<P, T>) -> bool {
    &&& s.init == path[k]
    &&& s.max_advances >= path.len() - n
    &&& n < path.len() ==> s.ptr == Some(path[walk_at(c, path, k, n)])
    &&& n < path.len() ==> s.switch == (n >= path.len() - k && c.nx(path.last()) is None)
    &&& n >= path.len() ==> s.ptr is None
}

/// `walk_at` is a permutation of the positions
pub proof fn lemma_walk_perm<P: Ptr, T>(c: ChainArena<P, T>, path: Seq<P>, k: int, i: int)
    requires 0 <= k < path.len(), 0 <= i < path.len(),
    ensures
        0 <= walk_at(c, path, k, i) < path.len(),
        exists|n: int| 0 <= n < path.len() && #[trigger] walk_at(c, path, k, n) == i,
{
    let n = if i >= k { i - k } else if c.nx(path.last()) is Some { i + (path.len() - k) } else { path.len() - 1 - i };
    assert(walk_at(c, path, k, n) == i);
}

pub proof fn lemma_walk_inj<P: Ptr, T>(c: ChainArena<P, T>, path: Seq<P>, k: int, i: int, j: int)
    requires 0 <= k < path.len(), 0 <= i < j < path.len(),
    ensures walk_at(c, path, k, i) != walk_at(c, path, k, j),
{
}

/// The `n`th step returns the `n`th link of the walk, and nothing after the
/// last one
/// What a chain says about one of its positions
pub proof fn lemma_chain_pos<P: Ptr, T>(c: ChainArena<P, T>, path: Seq<P>, j: int)
    requires c.wf(), is_chain(c, path), 0 <= j < path.len(),
    ensures
        c.has(path[j]),
        j + 1 < path.len() ==> c.nx(path[j]) == Some(path[j + 1]),
        j > 0 ==> c.pv(path[j]) == Some(path[j - 1]),
        j == 0 && c.nx(path.last()) is Some ==> c.pv(path[j]) == Some(path.last()),
        j == 0 && c.nx(path.last()) is None ==> c.pv(path[j]) is None,
{
    assert(c.has(path[j]));
    if j > 0 { assert(c.has(path[j - 1])); assert(c.nx(path[j - 1]) == Some(path[(j - 1) + 1])); lemma_nb(c, path[j - 1]); }
    if j == 0 && c.nx(path.last()) is Some { assert(path.last() == path[path.len() - 1]); assert(c.has(path.last())); lemma_nb(c, path.last()); }
}

pub proof fn lemma_chain_distinct<P: Ptr, T>(c: ChainArena<P, T>, path: Seq<P>, i: int, j: int)
    requires is_chain(c, path), 0 <= i < path.len(), 0 <= j < path.len(), i != j,
    ensures idx(path[i]) != idx(path[j]),
{ }

pub proof fn lemma_walk_step<P: Ptr, T>(c: ChainArena<P, T>, path: Seq<P>, k: int, n: int, s: ChainPtrAdvancer<P, T>, s2: ChainPtrAdvancer<P, T>, r: Option<P>)
    requires c.wf(), is_chain(c, path), 0 <= k < path.len(), 0 <= n, walking(c, path, k, n, s), s2.walked(s, c, r),
    ensures walking(c, path, k, n + 1, s2),
        r == (if n < path.len() { Some(path[walk_at(c, path, k, n)]) } else { None }),
{
    hide(is_run);
    hide(ChainArena::wf);
    lemma_chain_pos(c, path, k);
    lemma_chain_pos(c, path, 0);
    lemma_chain_pos(c, path, path.len() - 1);
    if n < path.len() {
        let w = walk_at(c, path, k, n);
        assert(0 <= w < path.len());
        lemma_chain_pos(c, path, w);
        if w + 1 < path.len() && w + 1 != k { lemma_chain_distinct(c, path, w + 1, k); }
        if w + 1 < path.len() && w != k { lemma_chain_distinct(c, path, w, k); }
        if k != 0 { lemma_chain_distinct(c, path, 0, k); }
    }
}

/// distinct live links are not more than the length
pub proof fn lemma_distinct_len<P: Ptr, T>(m: Seq<InternalEntry<P, T>>, path: Seq<P>)
    requires
        forall|k: int| 0 <= k < path.len() ==> ent(m, idx(#[trigger] path[k])) is Some,
        forall|j: int, k: int| #![trigger path[j], path[k]] 0 <= j < k < path.len() ==> idx(path[j]) != idx(path[k]),
    ensures path.len() <= cnt(m),
    decreases path.len(),
{
    if path.len() > 0 {
        let i = idx(path.last());
        assert(ent(m, i) is Some);
        let e = InternalEntry::<P, T>::Free(path.last().sinx());
        let m2 = m.update(i - 1, e);
        let p2 = path.drop_last();
        assert forall|k: int| 0 <= k < p2.len() implies ent(m2, idx(#[trigger] p2[k])) is Some by {
            assert(p2[k] == path[k]);
            assert(idx(path[k]) != idx(path[path.len() - 1]));
        }
        lemma_distinct_len(m2, p2);
        lemma_cnt_update(m, i - 1, e);
    }
}

/// A walk from a valid link starts in the first state
pub proof fn lemma_walk_start<P: Ptr, T>(c: ChainArena<P, T>, path: Seq<P>, k: int, s: ChainPtrAdvancer<P, T>)
    requires c.wf(), is_chain(c, path), 0 <= k < path.len(),
        s.init == path[k], s.ptr == Some(path[k]), !s.switch, s.max_advances == c.a.len,
    ensures walking(c, path, k, 0, s),
{
    assert forall|k: int| 0 <= k < path.len() implies ent(c.a.m@, idx(#[trigger] path[k])) is Some by {
        assert(c.has(path[k]));
    }
    lemma_distinct_len(c.a.m@, path);
}

/// A walk from a stale pointer returns nothing
pub proof fn lemma_walk_stale<P: Ptr, T>(c: ChainArena<P, T>, s: ChainPtrAdvancer<P, T>, s2: ChainPtrAdvancer<P, T>, r: Option<P>)
    requires s2.walked(s, c, r), s.ptr is Some ==> !c.has(s.ptr.unwrap()),
    ensures r is None, s2.ptr is Some ==> !c.has(s2.ptr.unwrap()),
{
}

/// The chain through a link is unique: another one is its rotation or the same
pub proof fn lemma_chain_unique<P: Ptr, T>(c: ChainArena<P, T>, a: Seq<P>, b: Seq<P>, i: int)
    requires c.wf(), is_chain(c, a), is_chain(c, b), exists|p: P| a.contains(p) && b.contains(p),
    ensures on(a, i) <==> on(b, i),
{
    let p = choose|p: P| a.contains(p) && b.contains(p);
    lemma_chain_sub(c, a, b, p, i);
    lemma_chain_sub(c, b, a, p, i);
}

/// closed under successors and predecessors
pub proof fn lemma_chain_closed<P: Ptr, T>(c: ChainArena<P, T>, b: Seq<P>, p: P)
    requires c.wf(), is_chain(c, b), b.contains(p),
    ensures c.has(p), c.nx(p) is Some ==> b.contains(c.nx(p).unwrap()), c.pv(p) is Some ==> b.contains(c.pv(p).unwrap()),
{
    let k = choose|k: int| 0 <= k < b.len() && b[k] == p;
    lemma_nb(c, b[k]);
    if k + 1 < b.len() { assert(c.nx(b[k]) == Some(b[k + 1])); } else if c.nx(b.last()) is Some { assert(b.contains(b[0])); }
    if k > 0 { lemma_nb(c, b[k - 1]); assert(c.pv(b[k]) == Some(b[k - 1])); } else { lemma_nb(c, b.last()); assert(b.contains(b[b.len() - 1])); }
}

pub proof fn lemma_chain_up<P: Ptr, T>(c: ChainArena<P, T>, a: Seq<P>, b: Seq<P>, j: int, k: int)
    requires c.wf(), is_chain(c, a), is_chain(c, b), 0 <= j <= k < a.len(), b.contains(a[j]),
    ensures b.contains(a[k]),
    decreases k - j,
{
    if j < k {
        lemma_chain_closed(c, b, a[j]);
        assert(c.nx(a[j]) == Some(a[j + 1]));
        lemma_chain_up(c, a, b, j + 1, k);
    }
}

pub proof fn lemma_chain_down<P: Ptr, T>(c: ChainArena<P, T>, a: Seq<P>, b: Seq<P>, j: int, k: int)
    requires c.wf(), is_chain(c, a), is_chain(c, b), 0 <= k <= j < a.len(), b.contains(a[j]),
    ensures b.contains(a[k]),
    decreases j - k,
{
    if k < j {
        lemma_chain_closed(c, b, a[j]);
        lemma_nb(c, a[j - 1]);
        assert(c.nx(a[j - 1]) == Some(a[j]));
        lemma_chain_down(c, a, b, j - 1, k);
    }
}

pub proof fn lemma_chain_sub<P: Ptr, T>(c: ChainArena<P, T>, a: Seq<P>, b: Seq<P>, p: P, i: int)
    requires c.wf(), is_chain(c, a), is_chain(c, b), a.contains(p), b.contains(p),
    ensures on(a, i) ==> on(b, i),
{
    if on(a, i) {
        let j = choose|j: int| 0 <= j < a.len() && a[j] == p;
        let k = choose|k: int| 0 <= k < a.len() && idx(#[trigger] a[k]) == i;
        if j <= k { lemma_chain_up(c, a, b, j, k); } else { lemma_chain_down(c, a, b, j, k); }
        let l = choose|l: int| 0 <= l < b.len() && b[l] == a[k];
        assert(idx(b[l]) == i);
    }
}
@@fn PtrAdvancer as Advancer::advance props=A08
    requires collection.a.wf(),
    ensures advanced(collection.a, old(self).adv.inx@ as int, final(self).adv.inx@ as int, r),
@@fn ChainPtrAdvancer as Advancer::advance props=C03
    requires collection.a.m.wf(),
    ensures final(self).walked(*old(self), *collection, r),
@@fn IterChain as Iterator::next props=C03
    requires old(self).arena.a.m.wf(),
    ensures final(self).arena == old(self).arena,
        final(self).adv.walked(old(self).adv, *old(self).arena, match r { Some((p, _)) => Some(p), None => None }),
        r is Some ==> *r.unwrap().1 == old(self).arena.a.val(r.unwrap().0),
@@fn ChainArena::advancer props=A08
    ensures r.adv.inx@ == 1,
@@fn ChainArena::advancer_chain props=C03
    ensures r.init == p_init, r.ptr == Some(p_init), !r.switch, r.max_advances == self.a.len,
@@fn ChainArena::iter_chain props=C03
    ensures r.arena == self, r.adv.init == p_init, r.adv.ptr == Some(p_init), !r.adv.switch, r.adv.max_advances == self.a.len,
@@fn ChainArena::ptrs props=A08
    ensures r.arena == &self.a, r.adv.inx@ == 1,
@@fn ChainArena::vals props=A08
    ensures r.arena == &self.a, r.adv.inx@ == 1,
@@fn ChainArena::iter props=A08
    ensures r.arena == &self.a, r.adv.inx@ == 1,
@@fn ChainArena::drain props=A04,A05
    requires old(self).wf(),
    ensures r.arena.wf(), r.adv.inx@ == 1, r.arena.m@ == old(self).a.m@, r.arena.len == old(self).a.len,
        final(self).a == *final(r.arena),
        r.arena.gen() == old(self).a.gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int }),
@@fn ChainArena::capacity_drain props=A05
    ensures r.arena == self.a, r.adv.inx@ == 1,
@@fn ChainArena as IntoIterator::into_iter props=A05
    ensures r.arena == self.a, r.adv.inx@ == 1,
@@end
