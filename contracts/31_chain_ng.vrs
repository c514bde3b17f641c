@@module chain_ng_spec chain/chain_no_gen_arena.rs
@@text
broadcast use {ptr_axioms, ax_vec_len, ax_vec_cap, arena_lemmas};
@@type LinkNoGen
#[verifier::reject_recursive_types(P)]
@@type ChainNoGenArena
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(T)]
@@text props=C01,C02,C03
pub open spec fn nidx<I: PtrInx>(p: I) -> int {
    p.ival()
}

pub open spec fn nis_at<I: PtrInx>(o: Option<I>, j: int) -> bool {
    o is Some && nidx(o.unwrap()) == j
}

/// What the interlinks of the link at `i` require of the links they name
pub open spec fn nsym_at<P: Ptr, T>(m: Seq<InternalEntry<P, LinkNoGen<P, T>>>, i: int, g: P::Gen, l: LinkNoGen<P, T>) -> bool {
    &&& match l.prev_next.1 {
        Some(q) => match entx(m, nidx(q)) {
            Some((h, k)) => k.prev_next.0 == Some(<P::Inx as PtrInx>::simk(i)),
            None => false,
        },
        None => true,
    }
    &&& match l.prev_next.0 {
        Some(q) => match entx(m, nidx(q)) {
            Some((h, k)) => k.prev_next.1 == Some(<P::Inx as PtrInx>::simk(i)),
            None => false,
        },
        None => true,
    }
}

/// Interlinks are symmetric, and name valid links
pub open spec fn nsym<P: Ptr, T>(m: Seq<InternalEntry<P, LinkNoGen<P, T>>>) -> bool {
    forall|i: int| match #[trigger] ent(m, i) {
        Some((g, l)) => nsym_at(m, i, g, l),
        None => true,
    }
}

/// Validity, generation and interlinks of position `i` are the same
pub open spec fn nlinks_eq<P: Ptr, T, U>(a: Seq<InternalEntry<P, LinkNoGen<P, T>>>, b: Seq<InternalEntry<P, LinkNoGen<P, U>>>, i: int) -> bool {
    match (ent(a, i), ent(b, i)) {
        (None, None) => true,
        (Some((g, l)), Some((h, k))) => g == h && l.prev_next == k.prev_next,
        _ => false,
    }
}

pub proof fn lemma_nsym_kept<P: Ptr, T, U>(a: Seq<InternalEntry<P, LinkNoGen<P, T>>>, b: Seq<InternalEntry<P, LinkNoGen<P, U>>>)
    requires nsym(a), forall|i: int| #![trigger ent(b, i)] nlinks_eq(a, b, i),
    ensures nsym(b),
{
    assert forall|i: int| match #[trigger] ent(b, i) {
        Some((g, l)) => nsym_at(b, i, g, l),
        None => true,
    } by {
        assert(nlinks_eq(a, b, i));
        if let Some((g, l)) = ent(b, i) {
            assert(ent(a, i) is Some);
            if let Some(q) = l.prev_next.1 { assert(nlinks_eq(a, b, nidx(q))); assert(ent(b, nidx(q)) == entx(b, nidx(q))); }
            if let Some(q) = l.prev_next.0 { assert(nlinks_eq(a, b, nidx(q))); assert(ent(b, nidx(q)) == entx(b, nidx(q))); }
        }
    }
}

/// The entry with its interlinks replaced
pub open spec fn nlset<P: Ptr, T>(e: Option<(P::Gen, LinkNoGen<P, T>)>, sp: bool, vp: Option<P::Inx>, sn: bool, vn: Option<P::Inx>) -> Option<(P::Gen, LinkNoGen<P, T>)> {
    match e {
        None => None,
        Some((g, l)) => Some((g, LinkNoGen {
            prev_next: (if sp { vp } else { l.prev_next.0 }, if sn { vn } else { l.prev_next.1 }),
            t: l.t,
        })),
    }
}

impl<P: Ptr, T> ChainNoGenArena<P, T> {
    pub open spec fn wf(self) -> bool {
        self.a.wf() && nsym(self.a.m@)
    }

    pub open spec fn has(self, p: P) -> bool {
        self.a.has(p)
    }

    /// some link is at `p`
    pub open spec fn live(self, p: P::Inx) -> bool {
        self.a.at(p.ival()) is Some
    }

    pub open spec fn nx(self, p: P::Inx) -> Option<P::Inx> {
        self.a.at(p.ival()).unwrap().1.prev_next.1
    }

    pub open spec fn pv(self, p: P::Inx) -> Option<P::Inx> {
        self.a.at(p.ival()).unwrap().1.prev_next.0
    }

    /// A link can be inserted between these
    pub open spec fn ins_ok(self, pn: (Option<P::Inx>, Option<P::Inx>)) -> bool {
        match pn {
            (None, None) => true,
            (None, Some(p1)) => self.live(p1),
            (Some(p0), None) => self.live(p0),
            (Some(p0), Some(p1)) => self.live(p0) && self.nx(p0) == Some(p1),
        }
    }

    /// The neighbors that a link inserted at `pn` gets
    pub open spec fn ins_at(self, pn: (Option<P::Inx>, Option<P::Inx>)) -> (Option<P::Inx>, Option<P::Inx>) {
        match pn {
            (None, Some(p1)) => (self.pv(p1), Some(p1)),
            (Some(p0), None) => (Some(p0), self.nx(p0)),
            _ => pn,
        }
    }

    /// `p` is a new link with neighbors `pn`, and nothing else changed
    pub open spec fn inserted(self, o: Self, p: P, pn: (Option<P::Inx>, Option<P::Inx>)) -> bool {
        &&& p.sgen() == o.a.generation
        &&& o.a.at(idx(p)) is None
        &&& self.has(p)
        &&& self.a.val(p).prev_next == pn
        &&& self.a.len == o.a.len + 1
        &&& forall|j: int| #![trigger ent(self.a.m@, j)] j != idx(p) ==>
            ent(self.a.m@, j) == nlset(ent(o.a.m@, j), nis_at(pn.1, j), Some(p.sinx()), nis_at(pn.0, j), Some(p.sinx()))
    }

    /// capacity, length and generation are unchanged
    pub open spec fn keep(self, o: Self) -> bool {
        &&& self.a.cap() == o.a.cap()
        &&& self.a.len == o.a.len
        &&& self.a.generation == o.a.generation
    }

    /// capacity and length are unchanged, and one generation is spent
    pub open spec fn keep_inc(self, o: Self, n: int) -> bool {
        &&& self.a.cap() == o.a.cap()
        &&& self.a.len == o.a.len - n
        &&& self.a.gen() == o.a.gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int })
    }

    pub open spec fn keep_cap(self, o: Self) -> bool {
        &&& self.a.cap() >= o.a.cap()
        &&& o.a.len < o.a.cap() ==> self.a.cap() == o.a.cap()
    }
}
@@text props=C01
/// Inserting next to valid neighbors keeps the interlinks symmetric
pub proof fn lemma_nsym_inserted<P: Ptr, T>(o: ChainNoGenArena<P, T>, n: ChainNoGenArena<P, T>, p: P, pn: (Option<P::Inx>, Option<P::Inx>))
    requires o.wf(), o.ins_ok(pn), n.inserted(o, p, o.ins_at(pn)), idx(p) <= n.a.cap(),
    ensures nsym(n.a.m@),
{
    let x = o.ins_at(pn);
    let (om, nm) = (o.a.m@, n.a.m@);
    if x.0 is Some { assert(ent(om, nidx(x.0.unwrap())) is Some); assert(ent(nm, nidx(x.0.unwrap())) is Some); }
    if x.1 is Some { assert(ent(om, nidx(x.1.unwrap())) is Some); assert(ent(nm, nidx(x.1.unwrap())) is Some); }
    assert forall|i: int| match #[trigger] ent(nm, i) { Some((g, l)) => nsym_at(nm, i, g, l), None => true } by {
        if ent(nm, i) is Some {
            let l = ent(nm, i).unwrap().1;
            if l.prev_next.0 is Some { let q = nidx(l.prev_next.0.unwrap()); assert(ent(nm, q) == entx(nm, q)); assert(ent(om, q) == entx(om, q)); }
            if l.prev_next.1 is Some { let q = nidx(l.prev_next.1.unwrap()); assert(ent(nm, q) == entx(nm, q)); assert(ent(om, q) == entx(om, q)); }
            if i != idx(p) {
                let ol = ent(om, i).unwrap().1;
                if ol.prev_next.0 is Some { let q = nidx(ol.prev_next.0.unwrap()); assert(ent(nm, q) == entx(nm, q)); assert(ent(om, q) == entx(om, q)); }
                if ol.prev_next.1 is Some { let q = nidx(ol.prev_next.1.unwrap()); assert(ent(nm, q) == entx(nm, q)); assert(ent(om, q) == entx(om, q)); }
            }
        }
    }
}
@@text props=C03
/// `path` lists a whole chain in order: all links between a start and an end,
/// or once around a cycle
pub open spec fn nis_chain<P: Ptr, T>(c: ChainNoGenArena<P, T>, path: Seq<P::Inx>) -> bool {
    &&& path.len() > 0
    &&& nis_run(c, path)
    &&& (c.pv(path[0]) is None && c.nx(path.last()) is None) || c.nx(path.last()) == Some(path[0])
}

/// consecutive links, each at most once
pub open spec fn nis_run<P: Ptr, T>(c: ChainNoGenArena<P, T>, path: Seq<P::Inx>) -> bool {
    &&& forall|k: int| 0 <= k < path.len() ==> c.live(#[trigger] path[k])
    &&& forall|k: int| #![trigger path[k]] 0 <= k < path.len() - 1 ==> c.nx(path[k]) == Some(path[k + 1])
    &&& forall|j: int, k: int| #![trigger path[j], path[k]] 0 <= j < k < path.len() ==> nidx(path[j]) != nidx(path[k])
}

/// some link of `path` is at raw index `i`
pub open spec fn non<I: PtrInx>(path: Seq<I>, i: int) -> bool {
    exists|k: int| 0 <= k < path.len() && nidx(#[trigger] path[k]) == i
}

/// a valid pointer is determined by its index
pub proof fn lemma_nhas_idx<P: Ptr, T>(c: ChainNoGenArena<P, T>, p: P::Inx, q: P::Inx)
    requires c.live(p), c.live(q), nidx(p) == nidx(q),
    ensures p == q,
{
}

/// the neighbor of a link is valid and names it
pub proof fn lemma_nnb<P: Ptr, T>(c: ChainNoGenArena<P, T>, p: P::Inx)
    requires c.wf(), c.live(p),
    ensures
        c.nx(p) is Some ==> c.live(c.nx(p).unwrap()) && c.pv(c.nx(p).unwrap()) == Some(p),
        c.pv(p) is Some ==> c.live(c.pv(p).unwrap()) && c.nx(c.pv(p).unwrap()) == Some(p),
{
    assert(ent(c.a.m@, nidx(p)) is Some);
    
    if c.nx(p) is Some { let q = nidx(c.nx(p).unwrap()); assert(ent(c.a.m@, q) == entx(c.a.m@, q)); }
    if c.pv(p) is Some { let q = nidx(c.pv(p).unwrap()); assert(ent(c.a.m@, q) == entx(c.a.m@, q)); }
}

/// The successor of the last link of a run is outside of the run, or its start
pub proof fn lemma_nrun_push<P: Ptr, T>(c: ChainNoGenArena<P, T>, path: Seq<P::Inx>, q: P::Inx)
    requires c.wf(), nis_run(c, path), path.len() > 0, c.nx(path.last()) == Some(q), nidx(q) != nidx(path[0]),
    ensures nis_run(c, path.push(q)), !non(path, nidx(q)), c.live(q),
{
    lemma_nnb(c, path.last());
    if non(path, nidx(q)) {
        let k = choose|k: int| 0 <= k < path.len() && nidx(#[trigger] path[k]) == nidx(q);
        lemma_nhas_idx(c, path[k], q);
        lemma_nnb(c, path[k - 1]);
        assert(c.pv(q) == Some(path[k - 1]));
        assert(path[k - 1] == path.last());
    }
}

/// The predecessor of the first link of a run that has an end is outside of it
pub proof fn lemma_nrun_front<P: Ptr, T>(c: ChainNoGenArena<P, T>, path: Seq<P::Inx>, q: P::Inx)
    requires c.wf(), nis_run(c, path), path.len() > 0, c.nx(path.last()) is None, c.pv(path[0]) == Some(q),
    ensures nis_run(c, seq![q] + path), !non(path, nidx(q)), c.live(q),
{
    lemma_nnb(c, path[0]);
    if non(path, nidx(q)) {
        let k = choose|k: int| 0 <= k < path.len() && nidx(#[trigger] path[k]) == nidx(q);
        lemma_nhas_idx(c, path[k], q);
        if k < path.len() - 1 {
            assert(path[k + 1] == path[0]);
        }
    }
    let n = seq![q] + path;
    assert forall|k: int| 0 <= k < n.len() implies c.live(#[trigger] n[k]) by {
        if k > 0 { assert(n[k] == path[k - 1]); }
    }
    assert forall|k: int| #![trigger n[k]] 0 <= k < n.len() - 1 implies c.nx(n[k]) == Some(n[k + 1]) by {
        if k > 0 { assert(n[k] == path[k - 1]); assert(n[k + 1] == path[k]); } else { assert(n[1] == path[0]); }
    }
    assert forall|j: int, k: int| #![trigger n[j], n[k]] 0 <= j < k < n.len() implies nidx(n[j]) != nidx(n[k]) by {
        assert(n[k] == path[k - 1]);
        if j > 0 { assert(n[j] == path[j - 1]); }
    }
}

/// `n` is `o` nwithout the links of `path`
pub open spec fn nwithout<P: Ptr, T>(o: Seq<InternalEntry<P, LinkNoGen<P, T>>>, n: Seq<InternalEntry<P, LinkNoGen<P, T>>>, path: Seq<P::Inx>) -> bool {
    forall|i: int| #![trigger ent(n, i)] ent(n, i) == (if non(path, i) { None } else { ent(o, i) })
}

/// Removing whole chains keeps the rest symmetric
pub proof fn lemma_nsym_without<P: Ptr, T>(c: ChainNoGenArena<P, T>, n: Seq<InternalEntry<P, LinkNoGen<P, T>>>, path: Seq<P::Inx>)
    requires c.wf(), nis_chain(c, path), nwithout(c.a.m@, n, path),
    ensures nsym(n),
{
    let m = c.a.m@;
    assert forall|i: int| match #[trigger] ent(n, i) { Some((g, l)) => nsym_at(n, i, g, l), None => true } by {
        if ent(n, i) is Some {
            let (g, l) = ent(n, i).unwrap();
            let p = <P::Inx as PtrInx>::simk(i);
            assert(c.live(p) && c.a.at(nidx(p)).unwrap().1 == l);
            lemma_nnb(c, p);
            if c.nx(p) is Some {
                let q = c.nx(p).unwrap();
                assert(ent(n, nidx(q)) == entx(n, nidx(q)));
                if non(path, nidx(q)) {
                    let k = choose|k: int| 0 <= k < path.len() && nidx(#[trigger] path[k]) == nidx(q);
                    lemma_nhas_idx(c, path[k], q);
                    if k > 0 {
                        lemma_nnb(c, path[k - 1]);
                        assert(path[k - 1] == p);
                    } else {
                        lemma_nnb(c, path.last());
                        assert(path[path.len() - 1] == p);
                    }
                    assert(non(path, i));
                }
            }
            if c.pv(p) is Some {
                let q = c.pv(p).unwrap();
                assert(ent(n, nidx(q)) == entx(n, nidx(q)));
                if non(path, nidx(q)) {
                    let k = choose|k: int| 0 <= k < path.len() && nidx(#[trigger] path[k]) == nidx(q);
                    lemma_nhas_idx(c, path[k], q);
                    if k < path.len() - 1 {
                        assert(path[k + 1] == p);
                    } else {
                        assert(path[0] == p);
                    }
                    assert(non(path, i));
                }
            }
        }
    }
}

pub proof fn lemma_nwithout_push<P: Ptr, T>(o: Seq<InternalEntry<P, LinkNoGen<P, T>>>, n: Seq<InternalEntry<P, LinkNoGen<P, T>>>, n2: Seq<InternalEntry<P, LinkNoGen<P, T>>>, path: Seq<P::Inx>, path2: Seq<P::Inx>, q: P::Inx)
    requires nwithout(o, n, path), path2 == path.push(q) || path2 == seq![q] + path,
        ent(n2, nidx(q)) is None,
        forall|i: int| #![trigger ent(n2, i)] i != nidx(q) ==> ent(n2, i) == ent(n, i),
    ensures nwithout(o, n2, path2),
{
    let d = if path2 == path.push(q) { 0int } else { 1int };
    assert forall|i: int| non(path2, i) <==> non(path, i) || i == nidx(q) by {
        if non(path, i) {
            let k = choose|k: int| 0 <= k < path.len() && nidx(#[trigger] path[k]) == i;
            assert(path2[k + d] == path[k]);
        }
        if i == nidx(q) {
            if d == 0 { assert(path2[path.len() as int] == q); } else { assert(path2[0] == q); }
        }
        if non(path2, i) && i != nidx(q) {
            let k = choose|k: int| 0 <= k < path2.len() && nidx(#[trigger] path2[k]) == i;
            assert(path2[k] == path[k - d]);
        }
    }
}
@@text
pub broadcast proof fn ax_nchain_vec<P: Ptr, T>(a: ChainNoGenArena<P, T>)
    requires #[trigger] a.wf(),
    ensures a.a.m.wf(),
{
}
@@module chain_no_gen_arena chain/chain_no_gen_arena.rs
@@text
broadcast use {ptr_axioms, ax_vec_len, ax_vec_cap, arena_lemmas};
@@fn LinkNoGen::prev props=C01,C02,C03,C04
    ensures r == self.prev_next.0,
@@fn LinkNoGen::next props=C01,C02,C03,C04
    ensures r == self.prev_next.1,
@@fn LinkNoGen::prev_next props=C01,C02,C03,C04
    ensures r == self.prev_next,
@@fn LinkNoGen::new props=C01,C02,C03,C04
    ensures r.prev_next == prev_next, r.t == t,
@@fn ChainNoGenArena::new props=C01,A04
    ensures r.wf(), r.a.len == 0, r.a.gen() == 2, r.a.cap() == 0, r.a.none_left(),
@@fn ChainNoGenArena::with_capacity props=C01,A03
    requires capacity <= <P::Inx as PtrInx>::maxi(),
    ensures r.wf(), r.a.len == 0, r.a.gen() == 2, r.a.cap() == capacity, r.a.none_left(),
@@fn ChainNoGenArena::len props=C02
    ensures r == self.a.len,
@@fn ChainNoGenArena::is_empty props=C02
    ensures r == (self.a.len == 0),
@@fn ChainNoGenArena::capacity props=A03
    ensures r == self.a.cap(),
@@fn ChainNoGenArena::generation props=A04
    ensures r == self.a.generation,
@@fn ChainNoGenArena::reserve props=A03,C01
    requires old(self).wf(), old(self).a.cap() + additional <= <P::Inx as PtrInx>::maxi(),
    ensures final(self).wf(), final(self).a.cap() == old(self).a.cap() + additional,
        final(self).a.same(old(self).a), final(self).a.generation == old(self).a.generation,
@@fn ChainNoGenArena::contains props=C02,A01
    requires self.a.m.wf(),
    ensures r == self.has(p),
@@fn ChainNoGenArena::are_neighbors props=C02,C03
    requires self.a.m.wf(),
    ensures r == (self.has(p_prev) && self.has(p_next) && self.nx(p_prev.sinx()) == Some(p_next.sinx())),
@@fn ChainNoGenArena::are_neighbors_inx props=C02,C03
    requires self.a.m.wf(),
    ensures r == (self.live(p_prev) && self.nx(p_prev) == Some(p_next)),
@@fn ChainNoGenArena::insert props=C01,C02,A03,A04
@attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
    requires old(self).wf(), old(self).a.len < <P::Inx as PtrInx>::maxi(),
    ensures final(self).wf(), final(self).a.generation == old(self).a.generation, final(self).keep_cap(*old(self)),
        match r {
            Ok(p) => old(self).ins_ok(prev_next) && final(self).inserted(*old(self), p, old(self).ins_at(prev_next))
                && final(self).a.val(p).t == t,
            Err(u) => u == t && !old(self).ins_ok(prev_next) && final(self).a.same(old(self).a),
        },
@end
    proof { if __r is Ok { lemma_nsym_inserted(*old(self), *self, __r->Ok_0, prev_next); } }
@@fn ChainNoGenArena::insert_with props=C01,C02,A03,A04
@attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
    requires old(self).wf(), old(self).a.len < <P::Inx as PtrInx>::maxi(), forall|p: P| create.requires((p,)),
    ensures final(self).wf(), final(self).a.generation == old(self).a.generation, final(self).keep_cap(*old(self)),
        match r {
            Some(p) => old(self).ins_ok(prev_next) && final(self).inserted(*old(self), p, old(self).ins_at(prev_next))
                && create.ensures((p,), final(self).a.val(p).t),
            None => !old(self).ins_ok(prev_next) && final(self).a.same(old(self).a),
        },
@closure 0
    -> (l: LinkNoGen<P, T>) ensures l.prev_next == (None::<P::Inx>, None::<P::Inx>), create.ensures(($0,), l.t)
@closure 1
    -> (l: LinkNoGen<P, T>) ensures l.prev_next == (Some(p0), Some(p1)), create.ensures(($0,), l.t)
@closure 2
    -> (l: LinkNoGen<P, T>) ensures l.prev_next == (None::<P::Inx>, Some(p1)), create.ensures(($0,), l.t)
@closure 3
    -> (l: LinkNoGen<P, T>) ensures l.prev_next == (Some(p0), Some(p1)), create.ensures(($0,), l.t)
@closure 4
    -> (l: LinkNoGen<P, T>) ensures l.prev_next == (Some(p0), None::<P::Inx>), create.ensures(($0,), l.t)
@closure 5
    -> (l: LinkNoGen<P, T>) ensures l.prev_next == (Some(p0), Some(p1)), create.ensures(($0,), l.t)
@end
    proof { if __r is Some { lemma_nsym_inserted(*old(self), *self, __r.unwrap(), prev_next); } }
@@fn ChainNoGenArena::insert_new props=C01,C02,A03,A04
    requires old(self).wf(), old(self).a.len < <P::Inx as PtrInx>::maxi(),
    ensures final(self).wf(), final(self).a.generation == old(self).a.generation, final(self).keep_cap(*old(self)),
        final(self).inserted(*old(self), r, (None, None)), final(self).a.val(r).t == t,
@@fn ChainNoGenArena::insert_new_with props=C01,C02,A03,A04
    requires old(self).wf(), old(self).a.len < <P::Inx as PtrInx>::maxi(), forall|p: P| create.requires((p,)),
    ensures final(self).wf(), final(self).a.generation == old(self).a.generation, final(self).keep_cap(*old(self)),
        final(self).inserted(*old(self), r, (None, None)), create.ensures((r,), final(self).a.val(r).t),
@closure 0
    -> (l: LinkNoGen<P, T>) ensures l.prev_next == (None::<P::Inx>, None::<P::Inx>), create.ensures(($0,), l.t)
@@fn ChainNoGenArena::insert_new_cyclic props=C01,C02,A03,A04
    requires old(self).wf(), old(self).a.len < <P::Inx as PtrInx>::maxi(),
    ensures final(self).wf(), final(self).a.generation == old(self).a.generation, final(self).keep_cap(*old(self)),
        final(self).inserted(*old(self), r, (Some(r.sinx()), Some(r.sinx()))), final(self).a.val(r).t == t,
@closure 0
    -> (l: LinkNoGen<P, T>) ensures l.prev_next == (Some($0.sinx()), Some($0.sinx())), l.t == t
@@fn ChainNoGenArena::insert_new_cyclic_with props=C01,C02,A03,A04
    requires old(self).wf(), old(self).a.len < <P::Inx as PtrInx>::maxi(), forall|p: P| create.requires((p,)),
    ensures final(self).wf(), final(self).a.generation == old(self).a.generation, final(self).keep_cap(*old(self)),
        final(self).inserted(*old(self), r, (Some(r.sinx()), Some(r.sinx()))), create.ensures((r,), final(self).a.val(r).t),
@closure 0
    -> (l: LinkNoGen<P, T>) ensures l.prev_next == (Some($0.sinx()), Some($0.sinx())), create.ensures(($0,), l.t)
@@fn ChainNoGenArena::insert_start props=C01,C02,A03,A04
    requires old(self).wf(), old(self).a.len < <P::Inx as PtrInx>::maxi(),
    ensures final(self).wf(), final(self).a.generation == old(self).a.generation, final(self).keep_cap(*old(self)),
        match r {
            Ok(p) => old(self).has(p_start) && old(self).pv(p_start.sinx()) is None
                && final(self).inserted(*old(self), p, (None, Some(p_start.sinx()))) && final(self).a.val(p).t == t,
            Err(u) => u == t && !(old(self).has(p_start) && old(self).pv(p_start.sinx()) is None) && final(self).a.same(old(self).a),
        },
@@fn ChainNoGenArena::insert_end props=C01,C02,A03,A04
    requires old(self).wf(), old(self).a.len < <P::Inx as PtrInx>::maxi(),
    ensures final(self).wf(), final(self).a.generation == old(self).a.generation, final(self).keep_cap(*old(self)),
        match r {
            Ok(p) => old(self).has(p_end) && old(self).nx(p_end.sinx()) is None
                && final(self).inserted(*old(self), p, (Some(p_end.sinx()), None)) && final(self).a.val(p).t == t,
            Err(u) => u == t && !(old(self).has(p_end) && old(self).nx(p_end.sinx()) is None) && final(self).a.same(old(self).a),
        },
@@fn ChainNoGenArena::get_link props=C02,A01
    requires self.a.m.wf(),
    ensures match r { Some(l) => self.has(p) && *l == self.a.val(p), None => !self.has(p) },
@@fn ChainNoGenArena::get props=C02,A01
    requires self.a.m.wf(),
    ensures match r { Some(t) => self.has(p) && *t == self.a.val(p).t, None => !self.has(p) },
@@fn ChainNoGenArena::get_link_mut props=C01,C02,A01
    requires old(self).a.m.wf(),
    ensures final(self).a.m.wf(), match r {
            Some(l) => old(self).has(p) && l.prev_next == old(self).a.val(p).prev_next && *l.t == old(self).a.val(p).t
                && final(self).a.at(idx(p)) == Some((p.sgen(), LinkNoGen { prev_next: old(self).a.val(p).prev_next, t: *final(l.t) }))
                && final(self).a.same_except(old(self).a, idx(p)),
            None => !old(self).has(p) && final(self).a.same(old(self).a),
        },
        final(self).keep(*old(self)), old(self).wf() ==> final(self).wf(),
@@fn ChainNoGenArena::get2_link_mut props=C01,C02,A01
    requires old(self).a.m.wf(),
    ensures final(self).a.m.wf(), match r {
            Some((l0, l1)) => old(self).has(p0) && old(self).has(p1) && p0 != p1
                && l0.prev_next == old(self).a.val(p0).prev_next && *l0.t == old(self).a.val(p0).t
                && l1.prev_next == old(self).a.val(p1).prev_next && *l1.t == old(self).a.val(p1).t
                && final(self).a.at(idx(p0)) == Some((p0.sgen(), LinkNoGen { prev_next: old(self).a.val(p0).prev_next, t: *final(l0.t) }))
                && final(self).a.at(idx(p1)) == Some((p1.sgen(), LinkNoGen { prev_next: old(self).a.val(p1).prev_next, t: *final(l1.t) }))
                && final(self).a.same_except2(old(self).a, idx(p0), idx(p1)),
            None => (p0 == p1 || !old(self).has(p0) || !old(self).has(p1)) && final(self).a.same(old(self).a),
        },
        final(self).keep(*old(self)), old(self).wf() ==> final(self).wf(),
@@fn ChainNoGenArena::get_mut props=C01,C02,A01
    requires old(self).a.m.wf(),
    ensures final(self).a.m.wf(), match r {
            Some(t) => old(self).has(p) && *t == old(self).a.val(p).t
                && final(self).a.at(idx(p)) == Some((p.sgen(), LinkNoGen { prev_next: old(self).a.val(p).prev_next, t: *final(t) }))
                && final(self).a.same_except(old(self).a, idx(p)),
            None => !old(self).has(p) && final(self).a.same(old(self).a),
        },
        final(self).keep(*old(self)), old(self).wf() ==> final(self).wf(),
@@fn ChainNoGenArena as Index::index name=vp_index mono=B:P props=C01,C02,A01
    requires self.a.m.wf(), self.has(index),
    ensures *r == self.a.val(index).t,
@@fn ChainNoGenArena as IndexMut::index_mut name=vp_index_mut mono=B:P props=C01,C02,A01
    requires old(self).a.m.wf(), old(self).has(index),
    ensures final(self).a.m.wf(), *r == old(self).a.val(index).t,
        final(self).a.at(idx(index)) == Some((index.sgen(), LinkNoGen { prev_next: old(self).a.val(index).prev_next, t: *final(r) })),
        final(self).a.same_except(old(self).a, idx(index)),
        final(self).keep(*old(self)), old(self).wf() ==> final(self).wf(),
@@fn ChainNoGenArena::get2_mut props=C01,C02,A01
    requires old(self).a.m.wf(),
    ensures final(self).a.m.wf(), match r {
            Some((t0, t1)) => old(self).has(p0) && old(self).has(p1) && p0 != p1
                && *t0 == old(self).a.val(p0).t && *t1 == old(self).a.val(p1).t
                && final(self).a.at(idx(p0)) == Some((p0.sgen(), LinkNoGen { prev_next: old(self).a.val(p0).prev_next, t: *final(t0) }))
                && final(self).a.at(idx(p1)) == Some((p1.sgen(), LinkNoGen { prev_next: old(self).a.val(p1).prev_next, t: *final(t1) }))
                && final(self).a.same_except2(old(self).a, idx(p0), idx(p1)),
            None => (p0 == p1 || !old(self).has(p0) || !old(self).has(p1)) && final(self).a.same(old(self).a),
        },
        final(self).keep(*old(self)), old(self).wf() ==> final(self).wf(),
@@fn ChainNoGenArena::remove_internal props=C01,C02,A01,A04
@attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
    requires old(self).wf(),
    ensures final(self).wf(),
        match r {
            Some(l) => old(self).has(p) && l == old(self).a.val(p) && final(self).a.at(idx(p)) is None
                && final(self).a.cap() == old(self).a.cap() && final(self).a.len == old(self).a.len - 1
                && final(self).a.gen() == old(self).a.gen() + (if inc_gen && <P::Gen as PtrGen>::counted() { 1int } else { 0int })
                && forall|j: int| #![trigger ent(final(self).a.m@, j)] j != idx(p) ==> ent(final(self).a.m@, j)
                    == nlset(ent(old(self).a.m@, j), nis_at(l.prev_next.1, j), l.prev_next.0, nis_at(l.prev_next.0, j), l.prev_next.1),
            None => !old(self).has(p) && final(self).a.same(old(self).a) && final(self).a.m@ == old(self).a.m@ && final(self).a.generation == old(self).a.generation,
        },
@@fn ChainNoGenArena::remove props=C01,C02,A01,A04
    requires old(self).wf(),
    ensures final(self).wf(), final(self).a.step(old(self).a),
        match r {
            Some(l) => old(self).has(p) && l == old(self).a.val(p) && final(self).a.at(idx(p)) is None
                && final(self).keep_inc(*old(self), 1)
                && (<P::Gen as PtrGen>::counted() ==> final(self).a.dead(p))
                && forall|j: int| #![trigger ent(final(self).a.m@, j)] j != idx(p) ==> ent(final(self).a.m@, j)
                    == nlset(ent(old(self).a.m@, j), nis_at(l.prev_next.1, j), l.prev_next.0, nis_at(l.prev_next.0, j), l.prev_next.1),
            None => !old(self).has(p) && final(self).a.same(old(self).a) && final(self).a.m@ == old(self).a.m@,
        },
@@fn ChainNoGenArena::invalidate props=C01,C02,A01,A04
@attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
    requires old(self).wf(),
    ensures final(self).wf(), final(self).a.step(old(self).a),
        match r {
            Some(q) => old(self).has(p) && q.sinx() == p.sinx() && final(self).keep_inc(*old(self), 0)
                && q.sgen().gval() == final(self).a.gen()
                && (<P::Gen as PtrGen>::counted() ==> final(self).a.dead(p))
                && ({
                    let l = old(self).a.val(p);
                    &&& final(self).a.at(idx(p)) == nlset(Some((q.sgen(), l)), nis_at(l.prev_next.1, idx(p)), Some(q.sinx()), nis_at(l.prev_next.0, idx(p)), Some(q.sinx()))
                    &&& forall|j: int| #![trigger ent(final(self).a.m@, j)] j != idx(p) ==> ent(final(self).a.m@, j)
                        == nlset(ent(old(self).a.m@, j), nis_at(l.prev_next.1, j), Some(q.sinx()), nis_at(l.prev_next.0, j), Some(q.sinx()))
                }),
            None => !old(self).has(p) && final(self).a.same(old(self).a) && final(self).a.m@ == old(self).a.m@,
        },
@@fn ChainNoGenArena::replace_and_keep_gen props=C01,C02,A01,A04
    requires old(self).wf(),
    ensures final(self).wf(), final(self).keep(*old(self)),
        match r {
            Ok(t) => old(self).has(p) && t == old(self).a.val(p).t
                && final(self).a.at(idx(p)) == Some((p.sgen(), LinkNoGen { prev_next: old(self).a.val(p).prev_next, t: new }))
                && final(self).a.same_except(old(self).a, idx(p)),
            Err(t) => t == new && !old(self).has(p) && final(self).a.same(old(self).a),
        },
@@fn ChainNoGenArena::replace_and_update_gen props=C01,C02,A01,A04
    requires old(self).wf(),
    ensures final(self).wf(), final(self).a.step(old(self).a),
        match r {
            Ok((t, q)) => old(self).has(p) && q.sinx() == p.sinx() && final(self).keep_inc(*old(self), 0)
                && t == old(self).a.val(p).t
                && q.sgen().gval() == final(self).a.gen()
                && (<P::Gen as PtrGen>::counted() ==> final(self).a.dead(p))
                && ({
                    let l = LinkNoGen { prev_next: old(self).a.val(p).prev_next, t: new };
                    &&& final(self).a.at(idx(p)) == nlset(Some((q.sgen(), l)), nis_at(l.prev_next.1, idx(p)), Some(q.sinx()), nis_at(l.prev_next.0, idx(p)), Some(q.sinx()))
                    &&& forall|j: int| #![trigger ent(final(self).a.m@, j)] j != idx(p) ==> ent(final(self).a.m@, j)
                        == nlset(ent(old(self).a.m@, j), nis_at(l.prev_next.1, j), Some(q.sinx()), nis_at(l.prev_next.0, j), Some(q.sinx()))
                }),
            Err(t) => t == new && !old(self).has(p) && final(self).a.same(old(self).a),
        },
@@fn ChainNoGenArena::swap props=C01,C02,A01
    requires old(self).wf(),
    ensures final(self).wf(), final(self).keep(*old(self)),
        match r {
            Some(_) => old(self).has(p0) && old(self).has(p1)
                && final(self).a.at(idx(p0)) == Some((p0.sgen(), LinkNoGen { prev_next: old(self).a.val(p0).prev_next, t: old(self).a.val(p1).t }))
                && final(self).a.at(idx(p1)) == Some((p1.sgen(), LinkNoGen { prev_next: old(self).a.val(p1).prev_next, t: old(self).a.val(p0).t }))
                && final(self).a.same_except2(old(self).a, idx(p0), idx(p1)),
            None => !(old(self).has(p0) && old(self).has(p1)) && final(self).a.same(old(self).a),
        },
@@fn ChainNoGenArena::connect props=C01,C02
    requires old(self).wf(),
    ensures final(self).wf(), final(self).keep(*old(self)),
        r is Some <==> old(self).has(p_prev) && old(self).has(p_next) && old(self).nx(p_prev.sinx()) is None && old(self).pv(p_next.sinx()) is None,
        r is None ==> final(self).a.same(old(self).a),
        r is Some ==> forall|j: int| #![trigger ent(final(self).a.m@, j)] ent(final(self).a.m@, j)
            == nlset(ent(old(self).a.m@, j), j == idx(p_next), Some(p_prev.sinx()), j == idx(p_prev), Some(p_next.sinx())),
@@fn ChainNoGenArena::break_prev props=C01,C02
    requires old(self).wf(),
    ensures final(self).wf(), final(self).keep(*old(self)),
        r is Some <==> old(self).has(p) && old(self).pv(p.sinx()) is Some,
        r is None ==> final(self).a.same(old(self).a),
        r is Some ==> forall|j: int| #![trigger ent(final(self).a.m@, j)] ent(final(self).a.m@, j)
            == nlset(ent(old(self).a.m@, j), j == idx(p), None, nis_at(old(self).pv(p.sinx()), j), None),
@@fn ChainNoGenArena::break_next props=C01,C02
    requires old(self).wf(),
    ensures final(self).wf(), final(self).keep(*old(self)),
        r is Some <==> old(self).has(p) && old(self).nx(p.sinx()) is Some,
        r is None ==> final(self).a.same(old(self).a),
        r is Some ==> forall|j: int| #![trigger ent(final(self).a.m@, j)] ent(final(self).a.m@, j)
            == nlset(ent(old(self).a.m@, j), nis_at(old(self).nx(p.sinx()), j), None, j == idx(p), None),
@@fn ChainNoGenArena::exchange_next props=C01,C02
@attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
    requires old(self).wf(),
    ensures final(self).wf(), final(self).keep(*old(self)),
        r is Some <==> old(self).has(p0) && old(self).has(p1) && old(self).nx(p0.sinx()) is Some && old(self).nx(p1.sinx()) is Some,
        r is None ==> final(self).a.same(old(self).a),
        r is Some ==> forall|j: int| #![trigger ent(final(self).a.m@, j)] ent(final(self).a.m@, j)
            == nlset(ent(old(self).a.m@, j),
                nis_at(old(self).nx(p0.sinx()), j) || nis_at(old(self).nx(p1.sinx()), j),
                Some(if nis_at(old(self).nx(p1.sinx()), j) { p0.sinx() } else { p1.sinx() }),
                j == idx(p0) || j == idx(p1),
                if j == idx(p1) { old(self).nx(p0.sinx()) } else { old(self).nx(p1.sinx()) }),
@@fn ChainNoGenArena::clear props=C01,A03,A04,A05
    requires old(self).wf(),
    ensures final(self).wf(), final(self).a.none_left(), final(self).keep_inc(*old(self), old(self).a.len as int),
@@fn ChainNoGenArena::clear_and_shrink props=C01,A03,A04,A05
    requires old(self).wf(),
    ensures final(self).wf(), final(self).a.none_left(), final(self).a.len == 0, final(self).a.cap() == 0,
        final(self).a.gen() == old(self).a.gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int }),
@@fn ChainNoGenArena::get_no_gen props=C02,A01
    requires self.a.m.wf(),
    ensures match r { Some((g, l)) => self.a.at(p.ival()) == Some((g, *l)), None => self.a.at(p.ival()) is None },
@@fn ChainNoGenArena::get_no_gen_mut props=C01,C02,A01
    requires old(self).a.m.wf(),
    ensures final(self).a.m.wf(), match r {
            Some((g, l)) => old(self).a.at(p.ival()) == Some((g, LinkNoGen { prev_next: l.prev_next, t: *l.t }))
                && final(self).a.at(p.ival()) == Some((g, LinkNoGen { prev_next: l.prev_next, t: *final(l.t) }))
                && final(self).a.same_except(old(self).a, p.ival()),
            None => old(self).a.at(p.ival()) is None && final(self).a.same(old(self).a),
        },
        final(self).keep(*old(self)), old(self).wf() ==> final(self).wf(),
@@fn ChainNoGenArena::get_inx_unwrap props=C02,A01
    requires self.a.m.wf(), self.a.at(p.ival()) is Some,
    ensures *r == self.a.at(p.ival()).unwrap().1,
@@fn ChainNoGenArena::get_inx_mut_unwrap props=C01,C02,A01
    requires old(self).a.m.wf(), old(self).a.at(p.ival()) is Some,
    ensures final(self).a.m.wf(), ({
            let (g, l) = old(self).a.at(p.ival()).unwrap();
            &&& r.prev_next == l.prev_next && *r.t == l.t
            &&& final(self).a.at(p.ival()) == Some((g, LinkNoGen { prev_next: l.prev_next, t: *final(r.t) }))
        }),
        final(self).a.same_except(old(self).a, p.ival()),
        final(self).keep(*old(self)), old(self).wf() ==> final(self).wf(),
@@fn ChainNoGenArena::get_inx_mut_unwrap_t props=C01,C02,A01
    requires old(self).a.m.wf(), old(self).a.at(p.ival()) is Some,
    ensures final(self).a.m.wf(), ({
            let (g, l) = old(self).a.at(p.ival()).unwrap();
            &&& *r == l.t
            &&& final(self).a.at(p.ival()) == Some((g, LinkNoGen { prev_next: l.prev_next, t: *final(r) }))
        }),
        final(self).a.same_except(old(self).a, p.ival()),
        final(self).keep(*old(self)), old(self).wf() ==> final(self).wf(),
@@fn ChainNoGenArena::remove_chain props=C01,C03,A04
    requires old(self).wf(),
    ensures final(self).wf(),
        match r {
            Some(n) => old(self).has(p) && exists|path: Seq<P::Inx>| #[trigger] nis_chain(*old(self), path) && path.contains(p.sinx())
                && n == path.len() && nwithout(old(self).a.m@, final(self).a.m@, path) && final(self).keep_inc(*old(self), path.len() as int),
            None => !old(self).has(p) && final(self).a.same(old(self).a),
        },
@start
    let ghost mut path: Seq<P::Inx> = seq![p.sinx()];
@before 0
    proof {
        let o = *old(self);
        assert(path[0] == p.sinx());
        assert(nis_run(o, path));
        lemma_nnb(o, p.sinx());
        assert forall|i: int| #![trigger ent(self.a.m@, i)] ent(self.a.m@, i) == (if non(path, i) { None } else { ent(o.a.m@, i) }) by {
            assert(non(path, i) <==> i == idx(p));
        }
    }
@loop 0
    invariant
        old(self).wf(), old(self).has(p), self.a.wf(), init == old(self).a.val(p),
        nis_run(*old(self), path), path.len() > 0, path[0] == p.sinx(), tmp == old(self).nx(path.last()),
        nwithout(old(self).a.m@, self.a.m@, path),
        len == path.len(), self.keep_inc(*old(self), path.len() as int),
    ensures tmp is None,
    decreases self.a.len,
@body 0
    proof {
        lemma_nnb(*old(self), path.last());
        if tmp is Some && tmp.unwrap().ival() == idx(p) {
            lemma_nhas_idx(*old(self), tmp.unwrap(), p.sinx());
            assert(nis_chain(*old(self), path));
            assert(path.contains(p.sinx()));
            lemma_nsym_without(*old(self), self.a.m@, path);
        }
    }
@pre remove_internal_inx_unwrap 0
    let ghost m1 = self.a.m@;
    proof {
        lemma_nrun_push(*old(self), path, next);
        assert(ent(self.a.m@, next.ival()) is Some);
    }
@at remove_internal_inx_unwrap 0
    proof {
        let path2 = path.push(next);
        lemma_nwithout_push(old(self).a.m@, m1, self.a.m@, path, path2, next);
        path = path2;
    }
@loop 1
    invariant
        old(self).wf(), old(self).has(p), self.a.wf(),
        nis_run(*old(self), path), path.len() > 0, path.contains(p.sinx()), tmp == old(self).pv(path[0]),
        old(self).nx(path.last()) is None,
        nwithout(old(self).a.m@, self.a.m@, path),
        len == path.len(), self.keep_inc(*old(self), path.len() as int),
    ensures tmp is None,
    decreases self.a.len,
@pre remove_internal_inx_unwrap 1
    let ghost m1 = self.a.m@;
    proof {
        lemma_nrun_front(*old(self), path, prev);
        assert(ent(self.a.m@, prev.ival()) is Some);
    }
@at remove_internal_inx_unwrap 1
    proof {
        let path2 = seq![prev] + path;
        lemma_nwithout_push(old(self).a.m@, m1, self.a.m@, path, path2, prev);
        let k = choose|k: int| 0 <= k < path.len() && path[k] == p.sinx();
        assert(path2[k + 1] == p.sinx());
        path = path2;
    }
@end
    proof { lemma_nsym_without(*old(self), self.a.m@, path); }
@@text props=S02,C01
proof fn lemma_ncyc_start<P: Ptr, T>(o: ChainNoGenArena<P, T>, n: Seq<InternalEntry<P, LinkNoGen<P, T>>>, full: Seq<P::Inx>)
    requires o.wf(), nis_chain(o, full), o.nx(full.last()) == Some(full[0]), ent(n, full[0].ival()) is None,
        forall|i: int| #![trigger ent(n, i)] i != full[0].ival() ==> ent(n, i) == ent(o.a.m@, i),
    ensures nwithout(o.a.m@, n, full.take(1)), o.nx(full[0]) is Some, full.take(1).last() == full[0], o.live(full[0]),
{
    let path = full.take(1);
    assert(path[0] == full[0]);
    assert forall|i: int| #![trigger ent(n, i)] ent(n, i) == (if non(path, i) { None } else { ent(o.a.m@, i) }) by {
        assert(non(path, i) <==> i == full[0].ival());
    }
    if full.len() > 1 { assert(o.nx(full[0]) == Some(full[1])); }
}

/// the next link of a cycle that was walked in part
proof fn lemma_ncyc_step<P: Ptr, T>(o: ChainNoGenArena<P, T>, full: Seq<P::Inx>, k: int, tmp: P::Inx)
    requires o.wf(), nis_chain(o, full), o.nx(full.last()) == Some(full[0]), 0 < k <= full.len(),
        o.nx(full.take(k).last()) == Some(tmp), tmp != full[0],
    ensures k < full.len(), full[k] == tmp, o.live(tmp), !non(full.take(k), tmp.ival()), o.nx(tmp) is Some,
        full.take(k + 1) == full.take(k).push(tmp), full.take(k + 1).last() == tmp,
{
    assert(full.take(k).last() == full[k - 1]);
    if k == full.len() { assert(full[k - 1] == full.last()); }
    assert(o.nx(full[k - 1]) == Some(full[k]));
    assert(full.take(k + 1) =~= full.take(k).push(tmp));
    if k + 1 < full.len() { assert(o.nx(full[k]) == Some(full[k + 1])); } else { assert(full[k] == full.last()); }
    if non(full.take(k), tmp.ival()) {
        let l = choose|l: int| 0 <= l < k && nidx(#[trigger] full.take(k)[l]) == nidx(tmp);
        assert(full.take(k)[l] == full[l]);
    }
}

/// back at the first link, the whole cycle was walked
proof fn lemma_ncyc_end<P: Ptr, T>(o: ChainNoGenArena<P, T>, full: Seq<P::Inx>, k: int)
    requires o.wf(), nis_chain(o, full), o.nx(full.last()) == Some(full[0]), 0 < k <= full.len(),
        o.nx(full.take(k).last()) == Some(full[0]),
    ensures k == full.len(), full.take(k) == full,
{
    assert(full.take(k).last() == full[k - 1]);
    if k < full.len() {
        assert(o.nx(full[k - 1]) == Some(full[k]));
        assert(nidx(full[0]) != nidx(full[k]));
    }
    assert(full.take(full.len() as int) =~= full);
}
@@fn ChainNoGenArena::remove_cyclic_chain_internal props=S02,C01
    requires old(self).wf(), old(self).live(p), exists|path: Seq<P::Inx>| #[trigger] nis_chain(*old(self), path) && path[0] == p && old(self).nx(path.last()) == Some(p),
    ensures final(self).wf(), final(self).a.cap() == old(self).a.cap(),
        final(self).a.gen() == old(self).a.gen() + (if inc_gen && <P::Gen as PtrGen>::counted() { 1int } else { 0int }),
        exists|path: Seq<P::Inx>| #[trigger] nis_chain(*old(self), path) && path[0] == p && old(self).nx(path.last()) == Some(p)
            && nwithout(old(self).a.m@, final(self).a.m@, path) && final(self).a.len == old(self).a.len - path.len(),
@start
    hide(nis_chain); hide(nsym); hide(non);
    let ghost full = choose|path: Seq<P::Inx>| #[trigger] nis_chain(*old(self), path) && path[0] == p && old(self).nx(path.last()) == Some(p);
    let ghost mut k: int = 1;
    proof { reveal(nis_chain); assert(full.len() > 0); }
@before 0
    proof { lemma_ncyc_start(*old(self), self.a.m@, full); }
@loop 0
    invariant
        old(self).wf(), self.a.wf(), full[0] == p,
        nis_chain(*old(self), full), old(self).nx(full.last()) == Some(p), 0 < k <= full.len(),
        old(self).nx(full.take(k).last()) == Some(tmp), nwithout(old(self).a.m@, self.a.m@, full.take(k)),
        self.a.cap() == old(self).a.cap(), self.a.len == old(self).a.len - k, self.a.gen() == old(self).a.gen(),
    ensures old(self).nx(full.take(k).last()) == Some(p),
    decreases self.a.len,
@pre remove_internal_inx_unwrap 1
    let ghost m1 = self.a.m@;
    let ghost tmp1 = tmp;
    proof {
        lemma_ncyc_step(*old(self), full, k, tmp);
        assert(ent(self.a.m@, tmp.ival()) is Some);
    }
@at remove_internal_inx_unwrap 1
    proof {
        lemma_nwithout_push(old(self).a.m@, m1, self.a.m@, full.take(k), full.take(k + 1), tmp1);
        k = k + 1;
    }
@end
    proof {
        lemma_ncyc_end(*old(self), full, k);
        lemma_nsym_without(*old(self), self.a.m@, full);
    }
@@fn ChainNoGenArena::_check_interlinks props=C04,E02
    requires this.a.wf(),
    ensures r is Ok <==> nsym(this.a.m@),
@loop 0
    invariant this.a.wf(), $it.arena == &this.a, err is Err,
        forall|i: int| #![trigger ent(this.a.m@, i)] i < $it.adv.inx@ ==> match ent(this.a.m@, i) {
            Some((g, l)) => nsym_at(this.a.m@, i, g, l),
            None => true,
        },
    ensures forall|i: int| #![trigger ent(this.a.m@, i)] i >= $it.adv.inx@ ==> ent(this.a.m@, i) is None,
    decreases this.a.m@.len() + 1 - $it.adv.inx@,
@@fn ChainNoGenArena::from_arena props=C04,E02
    requires arena.wf(),
    ensures match r { Ok(c) => c.wf() && c.a == arena, Err(_) => !nsym(arena.m@) },
@@text props=C04,A07
/// the links kept, with the values mapped
pub open spec fn nlmapped<P: Ptr, T, U, F: Fn(P, &LinkNoGen<P, U>) -> T>(f: F, o: Seq<InternalEntry<P, LinkNoGen<P, U>>>, n: Seq<InternalEntry<P, LinkNoGen<P, T>>>, i: int) -> bool {
    match ent(o, i) {
        None => ent(n, i) is None,
        Some((g, u)) => ent(n, i) is Some && ent(n, i).unwrap().0 == g && ent(n, i).unwrap().1.prev_next == u.prev_next
            && f.ensures((mkp::<P>(i, g), &u), ent(n, i).unwrap().1.t),
    }
}
@@fn ChainNoGenArena::clone_from_with props=C01,C04,A07
    requires old(self).a.wf(), source.wf(), mappable(map, source.a.m@),
    ensures final(self).wf(), final(self).a.generation == source.a.generation, final(self).a.len == source.a.len,
        final(self).a.cap() == (if source.a.cap() < old(self).a.cap() { old(self).a.cap() } else { source.a.cap() }),
        forall|i: int| #![trigger ent(final(self).a.m@, i)] nlmapped(map, source.a.m@, final(self).a.m@, i),
@closure 0
    -> (l: LinkNoGen<P, T>) requires map.requires(($0, $1)) ensures l.prev_next == $1.prev_next, map.ensures(($0, $1), l.t)
@end
    proof {
        assert forall|i: int| #![trigger ent(self.a.m@, i)] nlinks_eq(source.a.m@, self.a.m@, i) by {
            assert(nlmapped(map, source.a.m@, self.a.m@, i));
        }
        lemma_nsym_kept(source.a.m@, self.a.m@);
    }
@@impl LinkNoGen as Clone props=C04
@in clone contract
    ensures r.prev_next == self.prev_next, cloned(self.t, r.t)
@@text props=C04
/// entry `i` was cloned with its links
pub open spec fn nlcloned<P: Ptr, T: Clone>(o: Seq<InternalEntry<P, LinkNoGen<P, T>>>, n: Seq<InternalEntry<P, LinkNoGen<P, T>>>, i: int) -> bool {
    match ent(o, i) {
        None => ent(n, i) is None,
        Some((g, u)) => ent(n, i) is Some && ent(n, i).unwrap().0 == g && ent(n, i).unwrap().1.prev_next == u.prev_next
            && cloned(u.t, ent(n, i).unwrap().1.t),
    }
}
@@fn ChainNoGenArena as Clone::clone props=C01,C04,A07
    requires self.wf(),
    ensures r.wf(), r.a.generation == self.a.generation, r.a.len == self.a.len, r.a.cap() == self.a.cap(),
        forall|i: int| #![trigger ent(r.a.m@, i)] nlcloned(self.a.m@, r.a.m@, i),
@end
    proof {
        assert forall|i: int| #![trigger ent(__r.a.m@, i)] nlcloned(self.a.m@, __r.a.m@, i) by {
            assert(ent_cloned(self.a.m@, __r.a.m@, i));
        }
        assert forall|i: int| #![trigger ent(__r.a.m@, i)] nlinks_eq(self.a.m@, __r.a.m@, i) by {
            assert(nlcloned(self.a.m@, __r.a.m@, i));
        }
        lemma_nsym_kept(self.a.m@, __r.a.m@);
    }
@@fn ChainNoGenArena as Clone::clone_from props=C01,C04,A07
    requires old(self).a.wf(), source.wf(),
    ensures final(self).wf(), final(self).a.generation == source.a.generation, final(self).a.len == source.a.len,
        final(self).a.cap() == (if source.a.cap() < old(self).a.cap() { old(self).a.cap() } else { source.a.cap() }),
        forall|i: int| #![trigger ent(final(self).a.m@, i)] nlcloned(source.a.m@, final(self).a.m@, i),
@end
    proof {
        assert forall|i: int| #![trigger ent(self.a.m@, i)] nlcloned(source.a.m@, self.a.m@, i) by {
            assert(ent_cloned(source.a.m@, self.a.m@, i));
        }
        assert forall|i: int| #![trigger ent(self.a.m@, i)] nlinks_eq(source.a.m@, self.a.m@, i) by {
            assert(nlcloned(source.a.m@, self.a.m@, i));
        }
        lemma_nsym_kept(source.a.m@, self.a.m@);
    }
@@text props=C04
/// the neighbor named by index alone, as a pointer to the link that is there
pub open spec fn full<P: Ptr, T>(m: Seq<InternalEntry<P, LinkNoGen<P, T>>>, o: Option<P::Inx>) -> Option<P> {
    match o {
        Some(q) => Some(mkp::<P>(nidx(q), ent(m, nidx(q)).unwrap().0)),
        None => None,
    }
}

/// entry `i` of a chain arena, with the same neighbors and the value mapped
pub open spec fn genned<P: Ptr, T, U, F: Fn(P, &T) -> U>(f: F, o: Seq<InternalEntry<P, LinkNoGen<P, T>>>, n: Seq<InternalEntry<P, Link<P, U>>>, i: int) -> bool {
    match ent(o, i) {
        None => ent(n, i) is None,
        Some((g, u)) => ent(n, i) is Some && ent(n, i).unwrap().0 == g
            && ent(n, i).unwrap().1.prev_next == (full(o, u.prev_next.0), full(o, u.prev_next.1))
            && f.ensures((mkp::<P>(i, g), &u.t), ent(n, i).unwrap().1.t),
    }
}

pub proof fn lemma_genned<P: Ptr, T, U, F: Fn(P, &T) -> U>(f: F, o: Seq<InternalEntry<P, LinkNoGen<P, T>>>, n: Seq<InternalEntry<P, Link<P, U>>>)
    requires nsym(o), o.len() <= <P::Inx as PtrInx>::maxi(), forall|i: int| #![trigger ent(n, i)] genned(f, o, n, i),
    ensures sym(n),
{
    assert forall|i: int| match #[trigger] ent(n, i) {
        Some((g, l)) => sym_at(n, i, g, l),
        None => true,
    } by {
        assert(genned(f, o, n, i));
        if let Some((g, l)) = ent(n, i) {
            let u = ent(o, i).unwrap().1;
            assert(ent(o, i) is Some);
            if let Some(q) = u.prev_next.1 { assert(genned(f, o, n, nidx(q))); assert(ent(n, nidx(q)) == entx(n, nidx(q))); assert(ent(o, nidx(q)) == entx(o, nidx(q))); }
            if let Some(q) = u.prev_next.0 { assert(genned(f, o, n, nidx(q))); assert(ent(n, nidx(q)) == entx(n, nidx(q))); assert(ent(o, nidx(q)) == entx(o, nidx(q))); }
        }
    }
}
@@fn ChainNoGenArena::clone_to_chain_arena props=C01,C04,A07
    requires self.wf(), old(chain_arena).a.wf(), forall|i: int| #![trigger ent(self.a.m@, i)] match ent(self.a.m@, i) {
            None => true,
            Some((g, u)) => map.requires((mkp::<P>(i, g), &u.t)),
        },
    ensures final(chain_arena).wf(), final(chain_arena).a.generation == self.a.generation, final(chain_arena).a.len == self.a.len,
        final(chain_arena).a.cap() == (if self.a.cap() < old(chain_arena).a.cap() { old(chain_arena).a.cap() } else { self.a.cap() }),
        forall|i: int| #![trigger ent(final(chain_arena).a.m@, i)] genned(map, self.a.m@, final(chain_arena).a.m@, i),
@closure 0
    -> (l: Link<P, U>)
    requires map.requires(($0, &$1.t)), self.has($0), self.a.val($0) == *$1
    ensures l.prev_next == (full(self.a.m@, $1.prev_next.0), full(self.a.m@, $1.prev_next.1)), map.ensures(($0, &$1.t), l.t)
@start
    proof {
        assert forall|i: int| #![trigger self.a.m@[i]] 0 <= i < self.a.m@.len() implies match self.a.m@[i] {
            Free(_) => true,
            Allocated(g, u) => map.requires((mkp::<P>(i + 1, g), &u.t)) && self.has(mkp::<P>(i + 1, g)) && self.a.val(mkp::<P>(i + 1, g)) == u,
        } by { assert(ent(self.a.m@, i + 1) == entx(self.a.m@, i + 1)); }
    }
@end
    proof {
        lemma_genned(map, self.a.m@, chain_arena.a.m@);
    }
@@impl LinkNoGen as PartialEq props=C04
@@text props=C04
use vstd::std_specs::cmp::*;
impl<P: Ptr, T: PartialEq> PartialEqSpecImpl for LinkNoGen<P, T> {
    open spec fn obeys_eq_spec() -> bool { T::obeys_eq_spec() }
    open spec fn eq_spec(&self, other: &Self) -> bool { self.prev_next == other.prev_next && self.t.eq_spec(&other.t) }
}
@@fn ChainNoGenArena as PartialEq::eq opcall props=C04,A07
    requires self.wf(), other.wf(), T::obeys_eq_spec(),
    ensures r == forall|i: int| #![trigger ent(self.a.m@, i)] #![trigger ent(other.a.m@, i)] ents_eq(self.a.m@, other.a.m@, i),
@@fn ChainNoGenArena::clone_to_arena props=C04,A07
    requires self.wf(), old(arena).wf(), mappable(map, self.a.m@),
    ensures final(arena).wf(), final(arena).generation == self.a.generation, final(arena).len == self.a.len,
        final(arena).cap() == (if self.a.cap() < old(arena).cap() { old(arena).cap() } else { self.a.cap() }),
        forall|i: int| #![trigger ent(final(arena).m@, i)] mapped(map, self.a.m@, final(arena).m@, i),
@@text props=C04
/// the interlink under the renumbering `f`
pub open spec fn ntr<P: Ptr>(f: Map<int, P>, o: Option<P::Inx>) -> Option<P::Inx> {
    match o {
        Some(p) => Some(f[nidx(p)].sinx()),
        None => None,
    }
}

/// The link at `i` of `o` was moved to `f[i]` in `n`, was reported to `map`,
/// and its interlinks follow, except that the marked ones are still missing
#[verifier::prophetic]
pub open spec fn nmoved_link<P: Ptr, T, F: Fn(P, &mut T, P)>(map: F, o: Seq<InternalEntry<P, LinkNoGen<P, T>>>, n: Seq<InternalEntry<P, LinkNoGen<P, T>>>, f: Map<int, P>, g: P::Gen, i: int, sp: bool, sn: bool) -> bool {
    let q = f[i];
    match (ent(o, i), ent(n, idx(q))) {
        (Some((h, l)), Some((g2, k))) => {
            &&& g2 == g && q.sgen() == g
            &&& called3(map, mkp::<P>(i, h), l.t, k.t, q)
            &&& k.prev_next.0 == (if sp { None } else { ntr(f, l.prev_next.0) })
            &&& k.prev_next.1 == (if sn { None } else { ntr(f, l.prev_next.1) })
            &&& !sp && l.prev_next.0 is Some ==> f.dom().contains(nidx(l.prev_next.0.unwrap()))
            &&& !sn && l.prev_next.1 is Some ==> f.dom().contains(nidx(l.prev_next.1.unwrap()))
        },
        _ => false,
    }
}

/// `f` renumbers some of the links of `o` to exactly those of `n`. `first` and
/// `last` are missing an interlink.
#[verifier::prophetic]
pub open spec fn nmoving<P: Ptr, T, F: Fn(P, &mut T, P)>(map: F, o: Seq<InternalEntry<P, LinkNoGen<P, T>>>, n: Seq<InternalEntry<P, LinkNoGen<P, T>>>, f: Map<int, P>, b: Map<int, int>, g: P::Gen, first: Option<P::Inx>, last: Option<P::Inx>) -> bool {
    &&& forall|i: int| #[trigger] f.dom().contains(i) ==> nmoved_link(map, o, n, f, g, i, nis_at(first, i), nis_at(last, i)) && b[idx(f[i])] == i
    &&& forall|j: int| #![trigger ent(n, j)] ent(n, j) is Some ==> f.dom().contains(b[j]) && idx(f[b[j]]) == j
}

/// `nmoved_link` with the value at `i` now being `u[i]`
pub open spec fn umoved<P: Ptr, T>(u: Map<int, T>, o: Seq<InternalEntry<P, LinkNoGen<P, T>>>, n: Seq<InternalEntry<P, LinkNoGen<P, T>>>, f: Map<int, P>, g: P::Gen, i: int, sp: bool, sn: bool) -> bool {
    let q = f[i];
    match (ent(o, i), ent(n, idx(q))) {
        (Some((h, l)), Some((g2, k))) => {
            &&& g2 == g && q.sgen() == g
            &&& k.t == u[i]
            &&& k.prev_next.0 == (if sp { None } else { ntr(f, l.prev_next.0) })
            &&& k.prev_next.1 == (if sn { None } else { ntr(f, l.prev_next.1) })
            &&& !sp && l.prev_next.0 is Some ==> f.dom().contains(nidx(l.prev_next.0.unwrap()))
            &&& !sn && l.prev_next.1 is Some ==> f.dom().contains(nidx(l.prev_next.1.unwrap()))
        },
        _ => false,
    }
}

pub open spec fn umoving<P: Ptr, T>(u: Map<int, T>, o: Seq<InternalEntry<P, LinkNoGen<P, T>>>, n: Seq<InternalEntry<P, LinkNoGen<P, T>>>, f: Map<int, P>, b: Map<int, int>, g: P::Gen, first: Option<P::Inx>, last: Option<P::Inx>) -> bool {
    &&& forall|i: int| #[trigger] f.dom().contains(i) ==> umoved(u, o, n, f, g, i, nis_at(first, i), nis_at(last, i)) && b[idx(f[i])] == i
    &&& forall|j: int| #![trigger ent(n, j)] ent(n, j) is Some ==> f.dom().contains(b[j]) && idx(f[b[j]]) == j
}

pub open spec fn urenumbered<P: Ptr, T>(u: Map<int, T>, o: Seq<InternalEntry<P, LinkNoGen<P, T>>>, n: Seq<InternalEntry<P, LinkNoGen<P, T>>>, f: Map<int, P>, b: Map<int, int>, g: P::Gen) -> bool {
    &&& forall|i: int| #![trigger f.dom().contains(i)] #![trigger ent(o, i)] f.dom().contains(i) <==> ent(o, i) is Some
    &&& umoving(u, o, n, f, b, g, None, None)
}

/// every moved link was reported to `map`, which made `u` of it
#[verifier::prophetic]
pub open spec fn ureported<P: Ptr, T, F: Fn(P, &mut T, P)>(map: F, o: Seq<InternalEntry<P, LinkNoGen<P, T>>>, f: Map<int, P>, u: Map<int, T>) -> bool {
    forall|i: int| #[trigger] f.dom().contains(i) ==> match ent(o, i) { Some((h, l)) => called3(map, mkp::<P>(i, h), l.t, u[i], f[i]), None => true }
}

pub proof fn lemma_ureport<P: Ptr, T, F: Fn(P, &mut T, P)>(map: F, o: Seq<InternalEntry<P, LinkNoGen<P, T>>>, f: Map<int, P>, u: Map<int, T>, p: P, q: P, t: T)
    requires ureported(map, o, f, u), match ent(o, idx(p)) { Some((h, l)) => h == p.sgen() && called3(map, p, l.t, t, q), None => false },
    ensures ureported(map, o, f.insert(idx(p), q), u.insert(idx(p), t)),
{
    let f2 = f.insert(idx(p), q);
    let u2 = u.insert(idx(p), t);
    assert(mkp::<P>(idx(p), p.sgen()) == p);
    assert forall|i: int| #[trigger] f2.dom().contains(i) implies match ent(o, i) { Some((h, l)) => called3(map, mkp::<P>(i, h), l.t, u2[i], f2[i]), None => true } by {
        if i != idx(p) { assert(f.dom().contains(i)); }
    }
}

pub proof fn lemma_ureport_start<P: Ptr, T, F: Fn(P, &mut T, P)>(map: F, o: Seq<InternalEntry<P, LinkNoGen<P, T>>>)
    ensures ureported(map, o, Map::empty(), Map::empty()),
{ }

pub proof fn lemma_ureported<P: Ptr, T, F: Fn(P, &mut T, P)>(map: F, o: Seq<InternalEntry<P, LinkNoGen<P, T>>>, n: Seq<InternalEntry<P, LinkNoGen<P, T>>>, f: Map<int, P>, b: Map<int, int>, u: Map<int, T>, g: P::Gen)
    requires urenumbered(u, o, n, f, b, g), ureported(map, o, f, u),
    ensures nrenumbered(map, o, n, f, b, g),
{
    assert forall|i: int| #[trigger] f.dom().contains(i) implies nmoved_link(map, o, n, f, g, i, false, false) && b[idx(f[i])] == i by {
        assert(umoved(u, o, n, f, g, i, false, false));
    }
}

/// `m` is `o` without the links that were moved
pub open spec fn nremaining<P: Ptr, T>(o: Seq<InternalEntry<P, LinkNoGen<P, T>>>, m: Seq<InternalEntry<P, LinkNoGen<P, T>>>, f: Map<int, P>) -> bool {
    forall|i: int| #![trigger ent(m, i)] #![trigger f.dom().contains(i)] ent(m, i) == (if f.dom().contains(i) { None } else { ent(o, i) })
}

/// `n` is a renumbering of all of `o` that was reported to `map`
#[verifier::prophetic]
pub open spec fn nrenumbered<P: Ptr, T, F: Fn(P, &mut T, P)>(map: F, o: Seq<InternalEntry<P, LinkNoGen<P, T>>>, n: Seq<InternalEntry<P, LinkNoGen<P, T>>>, f: Map<int, P>, b: Map<int, int>, g: P::Gen) -> bool {
    &&& forall|i: int| #![trigger f.dom().contains(i)] #![trigger ent(o, i)] f.dom().contains(i) <==> ent(o, i) is Some
    &&& nmoving(map, o, n, f, b, g, None, None)
}

/// with each moved link its neighbors
pub open spec fn nclosed_under<P: Ptr, T>(c: ChainNoGenArena<P, T>, f: Map<int, P>) -> bool {
    forall|p: P::Inx| #[trigger] c.live(p) && f.dom().contains(nidx(p)) ==>
        (c.nx(p) is Some ==> f.dom().contains(nidx(c.nx(p).unwrap()))) && (c.pv(p) is Some ==> f.dom().contains(nidx(c.pv(p).unwrap())))
}

/// `d` and the links of `path`
pub open spec fn ndom_is<P: Ptr>(f: Map<int, P>, d: Map<int, P>, path: Seq<P::Inx>) -> bool {
    forall|i: int| #![trigger f.dom().contains(i)] #![trigger d.dom().contains(i)] #![trigger non(path, i)]
        (f.dom().contains(i) <==> d.dom().contains(i) || non(path, i)) && !(d.dom().contains(i) && non(path, i))
}

pub proof fn lemma_noutside_next<P: Ptr, T>(c: ChainNoGenArena<P, T>, a: Arena<P, LinkNoGen<P, T>>, f: Map<int, P>, d: Map<int, P>, path: Seq<P::Inx>, q: P::Inx)
    requires c.wf(), nremaining(c.a.m@, a.m@, f), nis_run(c, path), path.len() > 0, ndom_is(f, d, path), nclosed_under(c, d),
        c.nx(path.last()) == Some(q), q != path[0],
    ensures a.at(nidx(q)) is Some, a.at(nidx(q)) == c.a.at(nidx(q)), f.dom().contains(nidx(path[0])), f.dom().contains(nidx(path.last())), c.live(path[0]), c.live(path.last()), !f.dom().contains(nidx(q)), c.live(q), c.pv(q) == Some(path.last()), nis_run(c, path.push(q)),
        forall|x: P| ndom_is(#[trigger] f.insert(nidx(q), x), d, path.push(q)),
{
    lemma_nnb(c, path.last());
    if nidx(q) == nidx(path[0]) { lemma_nhas_idx(c, q, path[0]); }
    lemma_nrun_push(c, path, q);
    assert(non(path, nidx(path.last())));
    assert(non(path, nidx(path[0])));
    assert(!d.dom().contains(nidx(q)));
    let np = path.push(q);
    assert forall|i: int| non(np, i) <==> (non(path, i) || i == nidx(q)) by {
        if non(path, i) { let k = choose|k: int| 0 <= k < path.len() && nidx(#[trigger] path[k]) == i; assert(np[k] == path[k]); }
        assert(np[path.len() as int] == q);
    }
}

pub proof fn lemma_noutside_prev<P: Ptr, T>(c: ChainNoGenArena<P, T>, a: Arena<P, LinkNoGen<P, T>>, f: Map<int, P>, d: Map<int, P>, path: Seq<P::Inx>, q: P::Inx)
    requires c.wf(), nremaining(c.a.m@, a.m@, f), nis_run(c, path), path.len() > 0, ndom_is(f, d, path), nclosed_under(c, d),
        c.pv(path[0]) == Some(q), c.nx(path.last()) is None,
    ensures a.at(nidx(q)) is Some, a.at(nidx(q)) == c.a.at(nidx(q)), f.dom().contains(nidx(path[0])), c.live(path[0]), !f.dom().contains(nidx(q)), c.live(q), c.nx(q) == Some(path[0]), nis_run(c, seq![q] + path),
        forall|x: P| ndom_is(#[trigger] f.insert(nidx(q), x), d, seq![q] + path),
{
    lemma_nnb(c, path[0]);
    lemma_nrun_front(c, path, q);
    assert(non(path, nidx(path[0])));
    assert(!d.dom().contains(nidx(q)));
    let np = seq![q] + path;
    assert forall|i: int| non(np, i) <==> (non(path, i) || i == nidx(q)) by {
        if non(path, i) { let k = choose|k: int| 0 <= k < path.len() && nidx(#[trigger] path[k]) == i; assert(np[k + 1] == path[k]); }
        assert(np[0] == q);
    }
}

pub proof fn lemma_nclosed_chain<P: Ptr, T>(c: ChainNoGenArena<P, T>, f: Map<int, P>, d: Map<int, P>, path: Seq<P::Inx>)
    requires c.wf(), nis_chain(c, path), ndom_is(f, d, path), nclosed_under(c, d),
    ensures nclosed_under(c, f),
{
    assert forall|p: P::Inx| #[trigger] c.live(p) && f.dom().contains(nidx(p)) implies
        (c.nx(p) is Some ==> f.dom().contains(nidx(c.nx(p).unwrap()))) && (c.pv(p) is Some ==> f.dom().contains(nidx(c.pv(p).unwrap()))) by {
        lemma_nnb(c, p);
        if !d.dom().contains(nidx(p)) {
            assert(non(path, nidx(p)));
            let k = choose|k: int| 0 <= k < path.len() && nidx(#[trigger] path[k]) == nidx(p);
            lemma_nhas_idx(c, p, path[k]);
            lemma_nnb(c, path.last());
            if k + 1 < path.len() { assert(non(path, nidx(path[k + 1]))); } else { assert(non(path, nidx(path[0]))); }
            if k > 0 { lemma_nnb(c, path[k - 1]); assert(non(path, nidx(path[k - 1]))); } else { assert(non(path, nidx(path.last()))); }
        }
    }
}

/// One more link is moved, and up to two that wait for an interlink to it are completed
pub proof fn lemma_nmove<P: Ptr, T>(u: Map<int, T>, c: ChainNoGenArena<P, T>, n: Seq<InternalEntry<P, LinkNoGen<P, T>>>, n2: Seq<InternalEntry<P, LinkNoGen<P, T>>>, f: Map<int, P>, b: Map<int, int>, g: P::Gen,
    first: Option<P::Inx>, last: Option<P::Inx>, first2: Option<P::Inx>, last2: Option<P::Inx>, p: P, q: P, t: T)
    requires
        c.wf(), c.has(p), umoving(u, c.a.m@, n, f, b, g, first, last), !f.dom().contains(idx(p)), ent(n, idx(q)) is None,
        umoved(u.insert(idx(p), t), c.a.m@, n2, f.insert(idx(p), q), g, idx(p), nis_at(first2, idx(p)), nis_at(last2, idx(p))),
        first2 == first || nis_at(first2, idx(p)) || first2 is None,
        last2 == last || nis_at(last2, idx(p)) || last2 is None,
        first is Some ==> c.live(first.unwrap()) && f.dom().contains(nidx(first.unwrap())),
        last is Some ==> c.live(last.unwrap()) && f.dom().contains(nidx(last.unwrap())),
        first is Some && first2 != first ==> c.pv(first.unwrap()) == Some(p.sinx()),
        last is Some && last2 != last ==> c.nx(last.unwrap()) == Some(p.sinx()),
        forall|j: int| #![trigger ent(n2, j)] j != idx(q) ==> ent(n2, j) == nlset(ent(n, j),
            first is Some && first2 != first && j == idx(f[nidx(first.unwrap())]), Some(q.sinx()),
            last is Some && last2 != last && j == idx(f[nidx(last.unwrap())]), Some(q.sinx())),
    ensures umoving(u.insert(idx(p), t), c.a.m@, n2, f.insert(idx(p), q), b.insert(idx(q), idx(p)), g, first2, last2),
{
    let f2 = f.insert(idx(p), q);
    let b2 = b.insert(idx(q), idx(p));
    let u2 = u.insert(idx(p), t);
    let o = c.a.m@;
    assert forall|i: int| #[trigger] f2.dom().contains(i) implies umoved(u2, o, n2, f2, g, i, nis_at(first2, i), nis_at(last2, i)) && b2[idx(f2[i])] == i by {
        if i != idx(p) {
            assert(f.dom().contains(i));
            assert(umoved(u, o, n, f, g, i, nis_at(first, i), nis_at(last, i)));
            let j = idx(f[i]);
            assert(ent(n, j) is Some);
            assert(ent(n2, j) is Some);
            if first is Some { assert(f.dom().contains(nidx(first.unwrap()))); }
            if last is Some { assert(f.dom().contains(nidx(last.unwrap()))); }
        }
    }
    assert forall|j: int| #![trigger ent(n2, j)] ent(n2, j) is Some implies f2.dom().contains(b2[j]) && idx(f2[b2[j]]) == j by {
        if j != idx(q) {
            assert(ent(n, j) is Some);
            assert(f.dom().contains(b[j]));
        }
    }
}

/// a link is moved from `a` to `n`
pub proof fn lemma_nmove_step<P: Ptr, T>(u: Map<int, T>, c: ChainNoGenArena<P, T>, a: Arena<P, LinkNoGen<P, T>>, a2: Arena<P, LinkNoGen<P, T>>, n: Arena<P, LinkNoGen<P, T>>, n2: Arena<P, LinkNoGen<P, T>>,
    f: Map<int, P>, b: Map<int, int>, g: P::Gen, first: Option<P::Inx>, last: Option<P::Inx>, first2: Option<P::Inx>, last2: Option<P::Inx>, p: P, q: P, l: LinkNoGen<P, T>)
    requires
        c.wf(), c.has(p), umoving(u, c.a.m@, n.m@, f, b, g, first, last), nremaining(c.a.m@, a.m@, f), !f.dom().contains(idx(p)),
        a2.at(idx(p)) is None, a2.same_except(a, idx(p)),
        n.at(idx(q)) is None, q.sgen() == g, n2.at(idx(q)) == Some((g, l)),
        l.prev_next.0 == (if first2 == Some(p.sinx()) { None } else { ntr(f.insert(idx(p), q), c.pv(p.sinx())) }),
        l.prev_next.1 == (if last2 == Some(p.sinx()) { None } else { ntr(f.insert(idx(p), q), c.nx(p.sinx())) }),
        first2 != Some(p.sinx()) && c.pv(p.sinx()) is Some && c.pv(p.sinx()) != Some(p.sinx()) ==> f.dom().contains(nidx(c.pv(p.sinx()).unwrap())),
        last2 != Some(p.sinx()) && c.nx(p.sinx()) is Some && c.nx(p.sinx()) != Some(p.sinx()) ==> f.dom().contains(nidx(c.nx(p.sinx()).unwrap())),
        first2 == first || first2 == Some(p.sinx()) || first2 is None,
        last2 == last || last2 == Some(p.sinx()) || last2 is None,
        first is Some ==> c.live(first.unwrap()) && f.dom().contains(nidx(first.unwrap())),
        last is Some ==> c.live(last.unwrap()) && f.dom().contains(nidx(last.unwrap())),
        first is Some && first2 != first ==> c.pv(first.unwrap()) == Some(p.sinx()),
        last is Some && last2 != last ==> c.nx(last.unwrap()) == Some(p.sinx()),
        forall|j: int| #![trigger ent(n2.m@, j)] j != idx(q) ==> ent(n2.m@, j) == nlset(ent(n.m@, j),
            first is Some && first2 != first && j == idx(f[nidx(first.unwrap())]), Some(q.sinx()),
            last is Some && last2 != last && j == idx(f[nidx(last.unwrap())]), Some(q.sinx())),
    ensures umoving(u.insert(idx(p), l.t), c.a.m@, n2.m@, f.insert(idx(p), q), b.insert(idx(q), idx(p)), g, first2, last2),
        nremaining(c.a.m@, a2.m@, f.insert(idx(p), q)),
        forall|hi: int| #![trigger none_in(a2.m@, 1, hi)] none_in(a.m@, 1, hi) ==> none_in(a2.m@, 1, hi),
{
    assert(ent(n2.m@, idx(q)) is Some);
    assert(ent(c.a.m@, idx(p)) is Some);
    lemma_nnb(c, p.sinx());
    assert(mkp::<P>(idx(p), p.sgen()) == p);
    assert(first2 is Some && c.live(first2.unwrap()) ==> (nis_at(first2, idx(p)) <==> first2 == Some(p.sinx())));
    assert(last2 is Some && c.live(last2.unwrap()) ==> (nis_at(last2, idx(p)) <==> last2 == Some(p.sinx())));
    assert(umoved(u.insert(idx(p), l.t), c.a.m@, n2.m@, f.insert(idx(p), q), g, idx(p), nis_at(first2, idx(p)), nis_at(last2, idx(p))));
    lemma_nmove(u, c, n.m@, n2.m@, f, b, g, first, last, first2, last2, p, q, l.t);
    assert forall|hi: int| #![trigger none_in(a2.m@, 1, hi)] none_in(a.m@, 1, hi) implies none_in(a2.m@, 1, hi) by {
        assert forall|i: int| #![trigger ent(a2.m@, i)] 1 <= i < hi implies ent(a2.m@, i) is None by { assert(ent(a.m@, i) is None); }
    }
}

pub proof fn lemma_nsingle<P: Ptr, T>(c: ChainNoGenArena<P, T>, d: Map<int, P>, p: P::Inx, q: P)
    requires c.live(p), !d.dom().contains(nidx(p)),
    ensures nis_run(c, seq![p]), ndom_is(d.insert(nidx(p), q), d, seq![p]), seq![p][0] == p, seq![p].last() == p,
        c.nx(p) == Some(p) ==> nis_chain(c, seq![p]),
{
    let path = seq![p];
    assert forall|i: int| non(path, i) <==> i == nidx(p) by { if i == nidx(p) { assert(nidx(path[0]) == i); } }
}

pub proof fn lemma_nchain_ends<P: Ptr, T>(c: ChainNoGenArena<P, T>, path: Seq<P::Inx>)
    requires nis_run(c, path), path.len() > 0, (c.pv(path[0]) is None && c.nx(path.last()) is None) || c.nx(path.last()) == Some(path[0]),
    ensures nis_chain(c, path),
{
}

pub proof fn lemma_nmove_start<P: Ptr, T>(u: Map<int, T>, c: ChainNoGenArena<P, T>, a: Arena<P, LinkNoGen<P, T>>, n: Arena<P, LinkNoGen<P, T>>, g: P::Gen)
    requires a.m@ == c.a.m@, n.len == 0, n.wf(),
    ensures nremaining(c.a.m@, a.m@, Map::empty()), umoving(u, c.a.m@, n.m@, Map::empty(), Map::empty(), g, None, None), nclosed_under(c, Map::empty()),
{
    assert forall|i: int| ent(n.m@, i) is None by {}
}

pub proof fn lemma_nall_moved<P: Ptr, T>(u: Map<int, T>, c: ChainNoGenArena<P, T>, a: Arena<P, LinkNoGen<P, T>>, n: Seq<InternalEntry<P, LinkNoGen<P, T>>>, f: Map<int, P>, b: Map<int, int>, g: P::Gen, i0: int)
    requires nremaining(c.a.m@, a.m@, f), umoving(u, c.a.m@, n, f, b, g, None, None), a.wf(),
        none_in(a.m@, 1, i0), none_in(a.m@, i0, a.cap() + 1),
    ensures urenumbered(u, c.a.m@, n, f, b, g), a.len == 0,
{
    assert forall|i: int| 0 <= i < a.m@.len() implies (#[trigger] a.m@[i]) is Free by { assert(ent(a.m@, i + 1) is None); }
    lemma_cnt_zero(a.m@);
    assert forall|i: int| #![trigger f.dom().contains(i)] #![trigger ent(c.a.m@, i)] f.dom().contains(i) <==> ent(c.a.m@, i) is Some by {
        assert(ent(a.m@, i) is None);
        if f.dom().contains(i) { assert(umoved(u, c.a.m@, n, f, g, i, false, false)); }
    }
}

pub proof fn lemma_nmoved_at<P: Ptr, T>(u: Map<int, T>, o: Seq<InternalEntry<P, LinkNoGen<P, T>>>, n: Seq<InternalEntry<P, LinkNoGen<P, T>>>, f: Map<int, P>, b: Map<int, int>, g: P::Gen, first: Option<P::Inx>, last: Option<P::Inx>, i: int)
    requires umoving(u, o, n, f, b, g, first, last), f.dom().contains(i),
    ensures ent(n, idx(f[i])) is Some,
{
    assert(umoved(u, o, n, f, g, i, nis_at(first, i), nis_at(last, i)));
}

pub proof fn lemma_nrun_has<P: Ptr, T>(c: ChainNoGenArena<P, T>, path: Seq<P::Inx>)
    requires nis_run(c, path), path.len() > 0,
    ensures c.live(path[0]), c.live(path.last()),
{
}

/// one of the remaining links is the next to move
pub proof fn lemma_nmove_init<P: Ptr, T>(c: ChainNoGenArena<P, T>, a: Arena<P, LinkNoGen<P, T>>, f: Map<int, P>, i0: int, p: P)
    requires c.wf(), nremaining(c.a.m@, a.m@, f), a.has(p), none_in(a.m@, 1, i0), none_in(a.m@, i0, idx(p)),
    ensures c.has(p), !f.dom().contains(idx(p)), none_in(a.m@, 1, idx(p)), a.val(p) == c.a.val(p),
{
    assert(!f.dom().contains(idx(p)));
    assert(ent(a.m@, idx(p)) is Some);
}

/// the marked links have no further neighbor
pub proof fn lemma_nmove_done<P: Ptr, T>(u: Map<int, T>, c: ChainNoGenArena<P, T>, n: Seq<InternalEntry<P, LinkNoGen<P, T>>>, f: Map<int, P>, b: Map<int, int>, g: P::Gen,
    first: Option<P::Inx>, last: Option<P::Inx>, first2: Option<P::Inx>)
    requires
        umoving(u, c.a.m@, n, f, b, g, first, last), first2 == first || first2 is None,
        last is Some ==> c.live(last.unwrap()) && c.nx(last.unwrap()) is None,
        first is Some && first2 is None ==> c.live(first.unwrap()) && c.pv(first.unwrap()) is None,
    ensures umoving(u, c.a.m@, n, f, b, g, first2, None),
{
    assert forall|i: int| #[trigger] f.dom().contains(i) implies umoved(u, c.a.m@, n, f, g, i, nis_at(first2, i), false) && b[idx(f[i])] == i by {
        assert(umoved(u, c.a.m@, n, f, g, i, nis_at(first, i), nis_at(last, i)));
    }
}

pub proof fn lemma_nsym_renumbered<P: Ptr, T>(u: Map<int, T>, c: ChainNoGenArena<P, T>, n: Seq<InternalEntry<P, LinkNoGen<P, T>>>, f: Map<int, P>, b: Map<int, int>, g: P::Gen)
    requires c.wf(), urenumbered(u, c.a.m@, n, f, b, g),
    ensures nsym(n),
{
    let o = c.a.m@;
    assert forall|j: int| match #[trigger] ent(n, j) { Some((h, l)) => nsym_at(n, j, h, l), None => true } by {
        if ent(n, j) is Some {
            let i = b[j];
            assert(f.dom().contains(i));
            assert(umoved(u, o, n, f, g, i, false, false));
            let (h, l) = ent(o, i).unwrap();
            let p = <P::Inx as PtrInx>::simk(i);
            assert(c.live(p));
            lemma_nnb(c, p);
            assert(f[i].sinx() == <P::Inx as PtrInx>::simk(j));
            if l.prev_next.0 is Some {
                let x = l.prev_next.0.unwrap();
                assert(f.dom().contains(nidx(x)));
                assert(umoved(u, o, n, f, g, nidx(x), false, false));
                assert(ent(n, idx(f[nidx(x)])) == entx(n, idx(f[nidx(x)])));
            }
            if l.prev_next.1 is Some {
                let x = l.prev_next.1.unwrap();
                assert(f.dom().contains(nidx(x)));
                assert(umoved(u, o, n, f, g, nidx(x), false, false));
                assert(ent(n, idx(f[nidx(x)])) == entx(n, idx(f[nidx(x)])));
            }
        }
    }
}

/// the first link has no predecessor
pub proof fn lemma_nmove_done0<P: Ptr, T>(u: Map<int, T>, c: ChainNoGenArena<P, T>, n: Seq<InternalEntry<P, LinkNoGen<P, T>>>, f: Map<int, P>, b: Map<int, int>, g: P::Gen,
    first: Option<P::Inx>, last: Option<P::Inx>)
    requires
        umoving(u, c.a.m@, n, f, b, g, first, last),
        first is Some ==> c.live(first.unwrap()) && c.pv(first.unwrap()) is None,
    ensures umoving(u, c.a.m@, n, f, b, g, None, last),
{
    assert forall|i: int| #[trigger] f.dom().contains(i) implies umoved(u, c.a.m@, n, f, g, i, false, nis_at(last, i)) && b[idx(f[i])] == i by {
        assert(umoved(u, c.a.m@, n, f, g, i, nis_at(first, i), nis_at(last, i)));
    }
}

/// chains with the same first link are the same
pub proof fn lemma_nchain_from<P: Ptr, T>(c: ChainNoGenArena<P, T>, x: Seq<P::Inx>, y: Seq<P::Inx>)
    requires c.wf(), nis_chain(c, x), nis_chain(c, y), x[0] == y[0], c.pv(x[0]) is None,
    ensures x == y,
{
    lemma_nnb(c, x.last());
    lemma_nnb(c, y.last());
    assert(c.nx(x.last()) is None && c.nx(y.last()) is None);
    lemma_nchain_same(c, x, y, if x.len() < y.len() { x.len() as int - 1 } else { y.len() as int - 1 });
    assert(x =~= y);
}

pub proof fn lemma_nchain_same<P: Ptr, T>(c: ChainNoGenArena<P, T>, x: Seq<P::Inx>, y: Seq<P::Inx>, k: int)
    requires nis_chain(c, x), nis_chain(c, y), x[0] == y[0], 0 <= k < x.len(), k < y.len(),
    ensures forall|j: int| 0 <= j <= k ==> x[j] == y[j],
    decreases k,
{
    if k > 0 {
        lemma_nchain_same(c, x, y, k - 1);
        assert(x[k - 1] == y[k - 1]);
        assert(x[k] == y[k]) by { assert(c.nx(x[k - 1]) == Some(x[k - 1 + 1])); assert(c.nx(y[k - 1]) == Some(y[k - 1 + 1])); }
    }
}
@@text props=C01,C04,A04
/// `f` renumbers the links of `o` to exactly those of `n` (`b` is its inverse),
/// with their values and neighbors
pub open spec fn nkept<P: Ptr, T>(o: Seq<InternalEntry<P, LinkNoGen<P, T>>>, n: Seq<InternalEntry<P, LinkNoGen<P, T>>>, f: Map<int, P>, b: Map<int, int>, g: P::Gen) -> bool {
    &&& forall|i: int| #![trigger f.dom().contains(i)] #![trigger ent(o, i)] f.dom().contains(i) <==> ent(o, i) is Some
    &&& forall|i: int| #![trigger f.dom().contains(i)] #![trigger ent(o, i)] ent(o, i) is Some ==> b[idx(f[i])] == i && f[i].sgen() == g
        && ent(n, idx(f[i])) == Some((g, LinkNoGen { t: ent(o, i).unwrap().1.t, prev_next: (ntr(f, ent(o, i).unwrap().1.prev_next.0), ntr(f, ent(o, i).unwrap().1.prev_next.1)) }))
    &&& forall|j: int| #![trigger ent(n, j)] ent(n, j) is Some ==> f.dom().contains(b[j]) && idx(f[b[j]]) == j
}

/// a `map` that changes nothing
pub proof fn lemma_nkept<P: Ptr, T, F: Fn(P, &mut T, P)>(map: F, o: Seq<InternalEntry<P, LinkNoGen<P, T>>>, n: Seq<InternalEntry<P, LinkNoGen<P, T>>>, f: Map<int, P>, b: Map<int, int>, g: P::Gen)
    requires nrenumbered(map, o, n, f, b, g),
    ensures unchanging(map) ==> nkept(o, n, f, b, g),
{
    assert forall|i: int| #![trigger f.dom().contains(i)] #![trigger ent(o, i)] ent(o, i) is Some && unchanging(map) implies b[idx(f[i])] == i && f[i].sgen() == g
        && ent(n, idx(f[i])) == Some((g, LinkNoGen { t: ent(o, i).unwrap().1.t, prev_next: (ntr(f, ent(o, i).unwrap().1.prev_next.0), ntr(f, ent(o, i).unwrap().1.prev_next.1)) })) by {
        assert(f.dom().contains(i));
        assert(nmoved_link(map, o, n, f, g, i, false, false));
    }
}
@@fn ChainNoGenArena::compress_and_shrink props=C01,C04,A04
    requires old(self).wf(),
    ensures final(self).wf(), final(self).a.len == old(self).a.len, final(self).a.cap() == old(self).a.len,
        final(self).a.gen() == old(self).a.gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int }),
        exists|f: Map<int, P>, b: Map<int, int>| #[trigger] nkept(old(self).a.m@, final(self).a.m@, f, b, final(self).a.generation),
@closure 0
    ensures *final($1) == *old($1)
@@fn ChainNoGenArena::compress_and_shrink_with props=C01,C04,A04
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::spinoff_prover] #[verifier::rlimit(60)]
    requires old(self).wf(), forall|p: P, t: &mut T, q: P| map.requires((p, t, q)),
    ensures final(self).wf(), final(self).a.len == old(self).a.len, final(self).a.cap() == old(self).a.len,
        final(self).a.gen() == old(self).a.gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int }),
        exists|f: Map<int, P>, b: Map<int, int>| #[trigger] nrenumbered(map, old(self).a.m@, final(self).a.m@, f, b, final(self).a.generation),
        unchanging(map) ==> exists|f: Map<int, P>, b: Map<int, int>| #[trigger] nkept(old(self).a.m@, final(self).a.m@, f, b, final(self).a.generation),
@start
    hide(umoving); hide(ureported); hide(nremaining); hide(nclosed_under); hide(ndom_is); hide(nis_run); hide(nis_chain); hide(nsym);
    let ghost o = *old(self);
    let ghost om = o.a.m@;
    let ghost map0 = map;
    let ghost mut f: Map<int, P> = Map::empty();
    let ghost mut b: Map<int, int> = Map::empty();
    let ghost mut u: Map<int, T> = Map::empty();
@before 0
    proof { lemma_nmove_start(u, o, self.a, new, generation); lemma_ureport_start(map, om); }
@loop 0
    invariant
        o.wf(), om == o.a.m@, map == map0, forall|p: P, t: &mut T, q: P| map.requires((p, t, q)),
        self.a.wf(), new.wf(), new.cap() == o.a.len, self.a.cap() == o.a.cap(), new.generation == generation,
        new.gen() == o.a.gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int }),
        new.len + self.a.len == o.a.len,
        none_in(self.a.m@, 1, adv.inx@ as int),
        nremaining(om, self.a.m@, f), ureported(map, om, f, u), umoving(u, om, new.m@, f, b, generation, None, None), nclosed_under(o, f),
    ensures none_in(self.a.m@, adv.inx@ as int, self.a.cap() + 1),
    decreases self.a.len,
@closure 0
    -> (l: LinkNoGen<P, T>) ensures l.prev_next == (Some($0.sinx()), Some($0.sinx())), l.t == link.t
@body 0
    let ghost d = f;
    let ghost n0 = new;
    let ghost l0 = self.a.len;
    let ghost adv0 = adv.inx@ as int;
    let ghost b0 = b;
@pre remove_internal 0
    let ghost pi = p_init;
    let ghost a0 = self.a;
    proof {
        lemma_nmove_init(o, self.a, f, adv0, pi);
        lemma_nnb(o, pi.sinx());
    }
@at get_inx_mut_unwrap 0
    proof {
        f = d.insert(idx(pi), q);
        b = b0.insert(idx(q), idx(pi));
        lemma_nmove_step(u, o, a0, self.a, n0, new, d, b0, generation, None, None, None, None, pi, q, new.val(q));
        lemma_ureport(map, om, d, u, pi, q, new.val(q).t);
        u = u.insert(idx(pi), new.val(q).t);
        lemma_nsingle(o, d, pi.sinx(), q);
        lemma_nclosed_chain(o, f, d, seq![pi.sinx()]);
    }
@at get_inx_mut_unwrap 1
    let ghost mut path = seq![pi.sinx()];
    proof {
        f = d.insert(idx(pi), q_init);
        b = b0.insert(idx(q_init), idx(pi));
        lemma_nmove_step(u, o, a0, self.a, n0, new, d, b0, generation, None, None, Some(pi.sinx()), Some(pi.sinx()), pi, q_init, new.val(q_init));
        lemma_ureport(map, om, d, u, pi, q_init, new.val(q_init).t);
        u = u.insert(idx(pi), new.val(q_init).t);
        lemma_nsingle(o, d, pi.sinx(), q_init);
    }
@loop 1
    invariant
        o.wf(), om == o.a.m@, map == map0, forall|p: P, t: &mut T, q: P| map.requires((p, t, q)),
        self.a.wf(), new.wf(), new.cap() == o.a.len, self.a.cap() == o.a.cap(), new.generation == generation,
        new.gen() == o.a.gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int }),
        new.len + self.a.len == o.a.len,
        none_in(self.a.m@, 1, adv.inx@ as int),
        nremaining(om, self.a.m@, f), ureported(map, om, f, u), umoving(u, om, new.m@, f, b, generation, Some(pi.sinx()), Some(path.last())),
        self.a.len < l0, nclosed_under(o, d), ndom_is(f, d, path), nis_run(o, path), path.len() > 0, path[0] == pi.sinx(),
        q_init == f[idx(pi)], q_prev == f[nidx(path.last())],
        p_init_prev == o.pv(pi.sinx()), p_next == o.nx(path.last()), o.nx(path.last()) != Some(pi.sinx()),
    ensures p_next is None,
    decreases self.a.len,
@pre get_no_gen 0
    let ghost n1 = new;
    let ghost a1 = self.a;
    let ghost f1 = f;
    let ghost b1 = b;
    proof {
        let x = o.nx(path.last()).unwrap();
        lemma_nnb(o, pi.sinx());
        lemma_noutside_next(o, self.a, f, d, path, x);
        lemma_nnb(o, x);
        lemma_nmoved_at(u, om, new.m@, f, b, generation, Some(pi.sinx()), Some(path.last()), idx(pi));
        lemma_nmoved_at(u, om, new.m@, f, b, generation, Some(pi.sinx()), Some(path.last()), nidx(path.last()));
    }
@at get_inx_mut_unwrap 4
    proof {
        let x = o.pv(pi.sinx()).unwrap();
        f = f1.insert(idx(p), q);
        b = b1.insert(idx(q), idx(p));
        lemma_nmove_step(u, o, a1, self.a, n1, new, f1, b1, generation, Some(pi.sinx()), Some(path.last()), None, None, p, q, new.val(q));
        lemma_ureport(map, om, f1, u, p, q, new.val(q).t);
        u = u.insert(idx(p), new.val(q).t);
        let np = path.push(p.sinx());
        assert(np[0] == pi.sinx() && np.last() == p.sinx());
        lemma_nchain_ends(o, np);
        lemma_nclosed_chain(o, f, d, np);
    }
@at get_inx_mut_unwrap 6
    proof {
        f = f1.insert(idx(p), q);
        b = b1.insert(idx(q), idx(p));
        lemma_nmove_step(u, o, a1, self.a, n1, new, f1, b1, generation, Some(pi.sinx()), Some(path.last()), Some(pi.sinx()), Some(p.sinx()), p, q, new.val(q));
        lemma_ureport(map, om, f1, u, p, q, new.val(q).t);
        u = u.insert(idx(p), new.val(q).t);
        path = path.push(p.sinx());
        assert(path[0] == pi.sinx() && path.last() == p.sinx());
        if o.nx(p.sinx()) == Some(pi.sinx()) { assert(o.pv(pi.sinx()) == Some(p.sinx())); }
    }
@after 1
    proof { lemma_nrun_has(o, path); lemma_nmove_done(u, o, new.m@, f, b, generation, Some(pi.sinx()), Some(path.last()), Some(pi.sinx())); }
@loop 2
    invariant
        o.wf(), om == o.a.m@, map == map0, forall|p: P, t: &mut T, q: P| map.requires((p, t, q)),
        self.a.wf(), new.wf(), new.cap() == o.a.len, self.a.cap() == o.a.cap(), new.generation == generation,
        new.gen() == o.a.gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int }),
        new.len + self.a.len == o.a.len,
        none_in(self.a.m@, 1, adv.inx@ as int),
        nremaining(om, self.a.m@, f), ureported(map, om, f, u), umoving(u, om, new.m@, f, b, generation, Some(path[0]), None),
        self.a.len < l0, nclosed_under(o, d), ndom_is(f, d, path), nis_run(o, path), path.len() > 0, o.nx(path.last()) is None,
        q_next == f[nidx(path[0])], p_prev == o.pv(path[0]),
    ensures p_prev is None,
    decreases self.a.len,
@pre get_no_gen 1
    let ghost n1 = new;
    let ghost a1 = self.a;
    let ghost f1 = f;
    let ghost b1 = b;
    proof {
        let x = o.pv(path[0]).unwrap();
        lemma_noutside_prev(o, self.a, f, d, path, x);
        lemma_nmoved_at(u, om, new.m@, f, b, generation, Some(path[0]), None, nidx(path[0]));
    }
@at get_inx_mut_unwrap 8
    proof {
        f = f1.insert(idx(p), q);
        b = b1.insert(idx(q), idx(p));
        lemma_nmove_step(u, o, a1, self.a, n1, new, f1, b1, generation, Some(path[0]), None, Some(p.sinx()), None, p, q, new.val(q));
        lemma_ureport(map, om, f1, u, p, q, new.val(q).t);
        u = u.insert(idx(p), new.val(q).t);
        let np = seq![p.sinx()] + path;
        assert(np[0] == p.sinx() && np.last() == path.last());
        path = np;
    }
@after 2
    proof {
        lemma_nrun_has(o, path);
        lemma_nmove_done(u, o, new.m@, f, b, generation, Some(path[0]), None, None);
        lemma_nchain_ends(o, path);
        lemma_nclosed_chain(o, f, d, path);
    }
@after 0
    proof {
        lemma_nall_moved(u, o, self.a, new.m@, f, b, generation, adv.inx@ as int);
        lemma_nsym_renumbered(u, o, new.m@, f, b, generation);
        lemma_ureported(map, om, new.m@, f, b, u, generation);
        lemma_nkept(map, om, new.m@, f, b, generation);
    }
@@text props=O05
pub proof fn lemma_nrun_out<P: Ptr>(f: Map<int, P>, d: Map<int, P>, path: Seq<P::Inx>, k: int, i: int)
    requires ndom_is(f, d, path), 0 <= k < path.len(), !f.dom().contains(i),
    ensures nidx(path[k]) != i,
{
    assert(non(path, nidx(path[k])));
}

/// the entries listed by `s` got the positions one after the other
pub open spec fn numbered<P: Ptr>(f: Map<int, P>, s: Seq<P::Inx>) -> bool {
    forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> idx(f[nidx(s[k])]) == k + 1
}
@@fn ChainNoGenArena::compress_and_shrink_acyclic_chain_with props=O05
@attr #[verifier::spinoff_prover] #[verifier::rlimit(60)]
    requires old(self).wf(), forall|p: P, t: &mut T, q: P| map.requires((p, t, q)), old(self).has(first_link), old(self).pv(first_link.sinx()) is None,
        exists|full: Seq<P::Inx>| #[trigger] nis_chain(*old(self), full) && full[0] == first_link.sinx() && full.len() == old(self).a.len,
    ensures final(self).wf(), final(self).a.len == old(self).a.len, final(self).a.cap() == old(self).a.len,
        final(self).a.gen() == old(self).a.gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int }),
        exists|f: Map<int, P>, b: Map<int, int>| #[trigger] nrenumbered(map, old(self).a.m@, final(self).a.m@, f, b, final(self).a.generation)
            && forall|full: Seq<P::Inx>| #[trigger] nis_chain(*old(self), full) && full[0] == first_link.sinx() && full.len() == old(self).a.len ==> numbered(f, full),
@start
    hide(umoving); hide(ureported); hide(nremaining); hide(nclosed_under); hide(ndom_is); hide(nis_run); hide(nis_chain); hide(nsym);
    let ghost o = *old(self);
    let ghost om = o.a.m@;
    let ghost map0 = map;
    let ghost d: Map<int, P> = Map::empty();
    let ghost b0: Map<int, int> = Map::empty();
    let ghost mut f: Map<int, P> = Map::empty();
    let ghost mut b: Map<int, int> = Map::empty();
    let ghost mut u: Map<int, T> = Map::empty();
    let ghost mut path = seq![first_link.sinx()];
@at set_gen 0
    let ghost a0 = self.a;
    let ghost n0 = new;
    proof {
        lemma_nmove_start(u, o, self.a, new, generation); lemma_ureport_start(map, om);
        lemma_nnb(o, first_link.sinx());
        assert(o.a.len > 0);
    }
@at get_inx_mut_unwrap 0
    proof {
        f = d.insert(idx(first_link), q_prev);
        b = b0.insert(idx(q_prev), idx(first_link));
        lemma_nmove_step(u, o, a0, self.a, n0, new, d, b0, generation, None, None, Some(first_link.sinx()), Some(first_link.sinx()), first_link, q_prev, new.val(q_prev));
        lemma_ureport(map, om, d, u, first_link, q_prev, new.val(q_prev).t);
        u = u.insert(idx(first_link), new.val(q_prev).t);
        lemma_nsingle(o, d, first_link.sinx(), q_prev);
        lemma_nmove_done0(u, o, new.m@, f, b, generation, Some(first_link.sinx()), Some(first_link.sinx()));
        assert(seq_from(n0.m@, n0.freelist_root, 0));
        assert(numbered(f, path) && seq_from(new.m@, new.freelist_root, 1));
    }
@loop 0
    invariant
        o.wf(), om == o.a.m@, map == map0, forall|p: P, t: &mut T, q: P| map.requires((p, t, q)),
        self.a.wf(), new.wf(), new.cap() == o.a.len, new.generation == generation,
        new.gen() == o.a.gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int }),
        new.len + self.a.len == o.a.len, new.len == path.len(),
        nremaining(om, self.a.m@, f), ureported(map, om, f, u), umoving(u, om, new.m@, f, b, generation, None, Some(path.last())),
        nclosed_under(o, d), ndom_is(f, d, path), nis_run(o, path), path.len() > 0, path[0] == first_link.sinx(), o.pv(path[0]) is None,
        q_prev == f[nidx(path.last())], p_next == o.nx(path.last()),
        seq_from(new.m@, new.freelist_root, path.len() as int), numbered(f, path),
    ensures p_next is None,
    decreases self.a.len,
@pre get_no_gen 0
    let ghost n1 = new;
    let ghost a1 = self.a;
    let ghost f1 = f;
    let ghost b1 = b;
    proof {
        lemma_nrun_has(o, path);
        lemma_nnb(o, path.last());
        lemma_nnb(o, p_next);
        lemma_noutside_next(o, self.a, f, d, path, p_next);
        lemma_nmoved_at(u, om, new.m@, f, b, generation, None, Some(path.last()), nidx(path.last()));
        assert(self.a.len > 0);
    }
@at get_inx_mut_unwrap 2
    proof {
        f = f1.insert(idx(p), q);
        b = b1.insert(idx(q), idx(p));
        lemma_nmove_step(u, o, a1, self.a, n1, new, f1, b1, generation, None, Some(path.last()), None, Some(p.sinx()), p, q, new.val(q));
        lemma_ureport(map, om, f1, u, p, q, new.val(q).t);
        u = u.insert(idx(p), new.val(q).t);
        let path0 = path;
        assert forall|k: int| #![trigger path0[k]] 0 <= k < path0.len() implies nidx(path0[k]) != idx(p) && f[nidx(path0[k])] == f1[nidx(path0[k])] by { lemma_nrun_out(f1, d, path0, k, idx(p)); }
        path = path.push(p.sinx());
        assert(seq_from(new.m@, new.freelist_root, path.len() as int));
        assert forall|k: int| #![trigger path[k]] 0 <= k < path.len() implies idx(f[nidx(path[k])]) == k + 1 by { if k < path0.len() { assert(path[k] == path0[k]); } }
        assert(path[0] == first_link.sinx() && path.last() == p.sinx());
    }
@after 0
    proof {
        lemma_nrun_has(o, path);
        lemma_nmove_done(u, o, new.m@, f, b, generation, None, Some(path.last()), None);
        let full = choose|full: Seq<P::Inx>| #[trigger] nis_chain(*old(self), full) && full[0] == first_link.sinx() && full.len() == old(self).a.len;
        lemma_nchain_ends(o, path);
        lemma_nchain_from(o, path, full);
        assert(self.a.len == 0);
        assert forall|i: int| ent(self.a.m@, i) is None by {}
        lemma_nall_moved(u, o, self.a, new.m@, f, b, generation, 1);
        lemma_nsym_renumbered(u, o, new.m@, f, b, generation);
        lemma_ureported(map, om, new.m@, f, b, u, generation);
        assert forall|y: Seq<P::Inx>| #[trigger] nis_chain(*old(self), y) && y[0] == first_link.sinx() && y.len() == old(self).a.len implies numbered(f, y) by { lemma_nchain_from(o, path, y); }
    }
@@end
@@end
@@module chain_no_gen_iterators chain/chain_no_gen_iterators.rs chain/chain_no_gen_arena.rs
@@text
broadcast use {ptr_axioms, ax_vec_len, ax_vec_cap, arena_lemmas};
@@type PtrAdvancer
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(T)]
@@type ChainPtrAdvancer
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(T)]
@@type IterChain
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(T)]
@@text props=C03
/// position of a walk, its result, and its next position
pub open spec fn nwalk_next<P: Ptr, T>(c: ChainNoGenArena<P, T>, init: P::Inx, ptr: Option<P::Inx>, sw: bool) -> (Option<P::Inx>, bool) {
    if ptr is None || !c.live(ptr.unwrap()) {
        (None, sw)
    } else if sw {
        (c.pv(ptr.unwrap()), sw)
    } else {
        match c.nx(ptr.unwrap()) {
            Some(q) => if q == init { (None, sw) } else { (Some(q), sw) },
            None => (if c.live(init) { c.pv(init) } else { None }, true),
        }
    }
}

impl<P: Ptr, T> ChainPtrAdvancer<P, T> {
    /// `r` is what advancing from `o` to `self` returns
    pub open spec fn walked(self, o: Self, c: ChainNoGenArena<P, T>, r: Option<P>) -> bool {
        &&& self.init == o.init
        &&& o.max_advances == 0 ==> r is None && self == o
        &&& o.max_advances > 0 ==> {
            &&& self.max_advances == o.max_advances - 1
            &&& (self.ptr, self.switch) == nwalk_next(c, o.init, o.ptr, o.switch)
            &&& r is Some <==> o.ptr is Some && c.live(o.ptr.unwrap())
            &&& r is Some ==> c.has(r.unwrap()) && r.unwrap().sinx() == o.ptr.unwrap()
        }
    }
}

/// The walk over `path` starting from its `k`th link, at its `n`th step: the
/// links from `k` to the end, and then the ones before `k`, going backward in
/// an open chain and forward in a cyclic one
pub open spec fn nwalk_at<P: Ptr, T>(c: ChainNoGenArena<P, T>, path: Seq<P::Inx>, k: int, n: int) -> int {
    if n < path.len() - k {
        k + n
    } else if c.nx(path.last()) is Some {
        n - (path.len() - k)
    } else {
        path.len() - 1 - n
    }
}

/// The state of the walk before its `n`th step
pub open spec fn nwalking<P: Ptr, T>(c: ChainNoGenArena<P, T>, path: Seq<P::Inx>, k: int, n: int, s: ChainPtrAdvancer<P, T>) -> bool {
    &&& s.init == path[k]
    &&& s.max_advances >= path.len() - n
    &&& n < path.len() ==> s.ptr == Some(path[nwalk_at(c, path, k, n)])
    &&& n < path.len() ==> s.switch == (n >= path.len() - k && c.nx(path.last()) is None)
    &&& n >= path.len() ==> s.ptr is None
}

/// `nwalk_at` is a permutation of the positions
pub proof fn lemma_nwalk_perm<P: Ptr, T>(c: ChainNoGenArena<P, T>, path: Seq<P::Inx>, k: int, i: int)
    requires 0 <= k < path.len(), 0 <= i < path.len(),
    ensures
        0 <= nwalk_at(c, path, k, i) < path.len(),
        exists|n: int| 0 <= n < path.len() && #[trigger] nwalk_at(c, path, k, n) == i,
{
    let n = if i >= k { i - k } else if c.nx(path.last()) is Some { i + (path.len() - k) } else { path.len() - 1 - i };
    assert(nwalk_at(c, path, k, n) == i);
}

pub proof fn lemma_nwalk_inj<P: Ptr, T>(c: ChainNoGenArena<P, T>, path: Seq<P::Inx>, k: int, i: int, j: int)
    requires 0 <= k < path.len(), 0 <= i < j < path.len(),
    ensures nwalk_at(c, path, k, i) != nwalk_at(c, path, k, j),
{
}

/// The `n`th step returns the `n`th link of the walk, and nothing after the
/// last one
/// What a chain says about one of its positions
pub proof fn lemma_nchain_pos<P: Ptr, T>(c: ChainNoGenArena<P, T>, path: Seq<P::Inx>, j: int)
    requires c.wf(), nis_chain(c, path), 0 <= j < path.len(),
    ensures
        c.live(path[j]),
        j + 1 < path.len() ==> c.nx(path[j]) == Some(path[j + 1]),
        j > 0 ==> c.pv(path[j]) == Some(path[j - 1]),
        j == 0 && c.nx(path.last()) is Some ==> c.pv(path[j]) == Some(path.last()),
        j == 0 && c.nx(path.last()) is None ==> c.pv(path[j]) is None,
{
    assert(c.live(path[j]));
    if j > 0 { assert(c.live(path[j - 1])); assert(c.nx(path[j - 1]) == Some(path[(j - 1) + 1])); lemma_nnb(c, path[j - 1]); }
    if j == 0 && c.nx(path.last()) is Some { assert(path.last() == path[path.len() - 1]); assert(c.live(path.last())); lemma_nnb(c, path.last()); }
}

pub proof fn lemma_nchain_distinct<P: Ptr, T>(c: ChainNoGenArena<P, T>, path: Seq<P::Inx>, i: int, j: int)
    requires nis_chain(c, path), 0 <= i < path.len(), 0 <= j < path.len(), i != j,
    ensures nidx(path[i]) != nidx(path[j]),
{ }

pub proof fn lemma_nwalk_step<P: Ptr, T>(c: ChainNoGenArena<P, T>, path: Seq<P::Inx>, k: int, n: int, s: ChainPtrAdvancer<P, T>, s2: ChainPtrAdvancer<P, T>, r: Option<P>)
    requires c.wf(), nis_chain(c, path), 0 <= k < path.len(), 0 <= n, nwalking(c, path, k, n, s), s2.walked(s, c, r),
    ensures nwalking(c, path, k, n + 1, s2),
        r is Some <==> n < path.len(),
        r is Some ==> c.has(r.unwrap()) && r.unwrap().sinx() == path[nwalk_at(c, path, k, n)],
{
    hide(nis_run);
    hide(ChainNoGenArena::wf);
    lemma_nchain_pos(c, path, k);
    lemma_nchain_pos(c, path, 0);
    lemma_nchain_pos(c, path, path.len() - 1);
    if n < path.len() {
        let w = nwalk_at(c, path, k, n);
        assert(0 <= w < path.len());
        lemma_nchain_pos(c, path, w);
        if w + 1 < path.len() && w + 1 != k { lemma_nchain_distinct(c, path, w + 1, k); }
        if w + 1 < path.len() && w != k { lemma_nchain_distinct(c, path, w, k); }
        if k != 0 { lemma_nchain_distinct(c, path, 0, k); }
    }
}

/// distinct live links are not more than the length
pub proof fn lemma_ndistinct_len<P: Ptr, T>(m: Seq<InternalEntry<P, T>>, path: Seq<P::Inx>)
    requires
        forall|k: int| 0 <= k < path.len() ==> ent(m, nidx(#[trigger] path[k])) is Some,
        forall|j: int, k: int| #![trigger path[j], path[k]] 0 <= j < k < path.len() ==> nidx(path[j]) != nidx(path[k]),
    ensures path.len() <= cnt(m),
    decreases path.len(),
{
    if path.len() > 0 {
        let i = nidx(path.last());
        assert(ent(m, i) is Some);
        let e = InternalEntry::<P, T>::Free(path.last());
        let m2 = m.update(i - 1, e);
        let p2 = path.drop_last();
        assert forall|k: int| 0 <= k < p2.len() implies ent(m2, nidx(#[trigger] p2[k])) is Some by {
            assert(p2[k] == path[k]);
            assert(nidx(path[k]) != nidx(path[path.len() - 1]));
        }
        lemma_ndistinct_len(m2, p2);
        lemma_cnt_update(m, i - 1, e);
    }
}

/// A walk from a valid link starts in the first state
pub proof fn lemma_nwalk_start<P: Ptr, T>(c: ChainNoGenArena<P, T>, path: Seq<P::Inx>, k: int, s: ChainPtrAdvancer<P, T>)
    requires c.wf(), nis_chain(c, path), 0 <= k < path.len(),
        s.init == path[k], s.ptr == Some(path[k]), !s.switch, s.max_advances == c.a.len,
    ensures nwalking(c, path, k, 0, s),
{
    assert forall|k: int| 0 <= k < path.len() implies ent(c.a.m@, nidx(#[trigger] path[k])) is Some by {
        assert(c.live(path[k]));
    }
    lemma_ndistinct_len(c.a.m@, path);
}

/// A walk from a stale pointer returns nothing
pub proof fn lemma_nwalk_stale<P: Ptr, T>(c: ChainNoGenArena<P, T>, s: ChainPtrAdvancer<P, T>, s2: ChainPtrAdvancer<P, T>, r: Option<P>)
    requires s2.walked(s, c, r), s.ptr is Some ==> !c.live(s.ptr.unwrap()),
    ensures r is None, s2.ptr is Some ==> !c.live(s2.ptr.unwrap()),
{
}

/// The chain through a link is unique: another one is its rotation or the same
pub proof fn lemma_nchain_unique<P: Ptr, T>(c: ChainNoGenArena<P, T>, a: Seq<P::Inx>, b: Seq<P::Inx>, i: int)
    requires c.wf(), nis_chain(c, a), nis_chain(c, b), exists|p: P::Inx| a.contains(p) && b.contains(p),
    ensures non(a, i) <==> non(b, i),
{
    let p = choose|p: P::Inx| a.contains(p) && b.contains(p);
    lemma_nchain_sub(c, a, b, p, i);
    lemma_nchain_sub(c, b, a, p, i);
}

/// closed under successors and predecessors
pub proof fn lemma_nchain_closed<P: Ptr, T>(c: ChainNoGenArena<P, T>, b: Seq<P::Inx>, p: P::Inx)
    requires c.wf(), nis_chain(c, b), b.contains(p),
    ensures c.live(p), c.nx(p) is Some ==> b.contains(c.nx(p).unwrap()), c.pv(p) is Some ==> b.contains(c.pv(p).unwrap()),
{
    let k = choose|k: int| 0 <= k < b.len() && b[k] == p;
    lemma_nnb(c, b[k]);
    if k + 1 < b.len() { assert(c.nx(b[k]) == Some(b[k + 1])); } else if c.nx(b.last()) is Some { assert(b.contains(b[0])); }
    if k > 0 { lemma_nnb(c, b[k - 1]); assert(c.pv(b[k]) == Some(b[k - 1])); } else { lemma_nnb(c, b.last()); assert(b.contains(b[b.len() - 1])); }
}

pub proof fn lemma_nchain_up<P: Ptr, T>(c: ChainNoGenArena<P, T>, a: Seq<P::Inx>, b: Seq<P::Inx>, j: int, k: int)
    requires c.wf(), nis_chain(c, a), nis_chain(c, b), 0 <= j <= k < a.len(), b.contains(a[j]),
    ensures b.contains(a[k]),
    decreases k - j,
{
    if j < k {
        lemma_nchain_closed(c, b, a[j]);
        assert(c.nx(a[j]) == Some(a[j + 1]));
        lemma_nchain_up(c, a, b, j + 1, k);
    }
}

pub proof fn lemma_nchain_down<P: Ptr, T>(c: ChainNoGenArena<P, T>, a: Seq<P::Inx>, b: Seq<P::Inx>, j: int, k: int)
    requires c.wf(), nis_chain(c, a), nis_chain(c, b), 0 <= k <= j < a.len(), b.contains(a[j]),
    ensures b.contains(a[k]),
    decreases j - k,
{
    if k < j {
        lemma_nchain_closed(c, b, a[j]);
        lemma_nnb(c, a[j - 1]);
        assert(c.nx(a[j - 1]) == Some(a[j]));
        lemma_nchain_down(c, a, b, j - 1, k);
    }
}

pub proof fn lemma_nchain_sub<P: Ptr, T>(c: ChainNoGenArena<P, T>, a: Seq<P::Inx>, b: Seq<P::Inx>, p: P::Inx, i: int)
    requires c.wf(), nis_chain(c, a), nis_chain(c, b), a.contains(p), b.contains(p),
    ensures non(a, i) ==> non(b, i),
{
    if non(a, i) {
        let j = choose|j: int| 0 <= j < a.len() && a[j] == p;
        let k = choose|k: int| 0 <= k < a.len() && nidx(#[trigger] a[k]) == i;
        if j <= k { lemma_nchain_up(c, a, b, j, k); } else { lemma_nchain_down(c, a, b, j, k); }
        let l = choose|l: int| 0 <= l < b.len() && b[l] == a[k];
        assert(nidx(b[l]) == i);
    }
}
@@fn PtrAdvancer as Advancer::advance props=A08
    requires collection.a.wf(),
    ensures advanced(collection.a, old(self).adv.inx@ as int, final(self).adv.inx@ as int, r),
@@fn ChainPtrAdvancer as Advancer::advance props=C03
    requires collection.a.m.wf(),
    ensures final(self).walked(*old(self), *collection, r),
@@fn IterChain as Iterator::next props=C03
    requires old(self).arena.a.m.wf(),
    ensures final(self).arena == old(self).arena,
        final(self).adv.walked(old(self).adv, *old(self).arena, match r { Some((p, _)) => Some(p), None => None }),
        r is Some ==> *r.unwrap().1 == old(self).arena.a.val(r.unwrap().0),
@@fn ChainNoGenArena::advancer props=A08
    ensures r.adv.inx@ == 1,
@@fn ChainNoGenArena::advancer_chain props=C03
    ensures r.init == p_init, r.ptr == Some(p_init), !r.switch, r.max_advances == self.a.len,
@@fn ChainNoGenArena::iter_chain props=C03
    ensures r.arena == self, r.adv.init == p_init, r.adv.ptr == Some(p_init), !r.adv.switch, r.adv.max_advances == self.a.len,
@@fn ChainNoGenArena::ptrs props=A08
    ensures r.arena == &self.a, r.adv.inx@ == 1,
@@fn ChainNoGenArena::vals props=A08
    ensures r.arena == &self.a, r.adv.inx@ == 1,
@@fn ChainNoGenArena::iter props=A08
    ensures r.arena == &self.a, r.adv.inx@ == 1,
@@fn ChainNoGenArena::drain props=A04,A05
    requires old(self).wf(),
    ensures r.arena.wf(), r.adv.inx@ == 1, r.arena.m@ == old(self).a.m@, r.arena.len == old(self).a.len,
        final(self).a == *final(r.arena),
        r.arena.gen() == old(self).a.gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int }),
@@fn ChainNoGenArena::capacity_drain props=A05
    ensures r.arena == self.a, r.adv.inx@ == 1,
@@fn ChainNoGenArena as IntoIterator::into_iter props=A05
    ensures r.arena == self.a, r.adv.inx@ == 1,
@@end
