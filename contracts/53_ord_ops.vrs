@@module ord_ops ord/ord_arena.rs ord/insert.rs ord/remove.rs
@@text props=O01,O02,O04
use vstd::imap::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
broadcast use {ptr_axioms, ax_vec_len, ax_vec_cap, ax_nchain_vec, arena_lemmas, std_facts::ord_facts};

/// an insertion where the key belongs keeps the keys sorted
pub proof fn lemma_sorted_ins<P: Ptr, K: Ord, V>(o: OrdArena<P, K, V>, n: OrdArena<P, K, V>, i: int, p: P, k: K, v: V)
    requires o.tree(), lawful(o), ord_ins(o, n, i, p, k, v),
        forall|j: int| #![trigger o.order()[j]] 0 <= j < o.order().len() ==> if j < i { kle(o.key(o.order()[j]), k) } else { kle(k, o.key(o.order()[j])) },
    ensures n.sorted(),
{
    let (s, u) = (o.order(), n.order());
    assert forall|a: int, b: int| #![trigger u[a], u[b]] 0 <= a <= b < u.len() implies kle(n.key(u[a]), n.key(u[b])) by {
        let ao = if a < i { a } else { a - 1 };
        let bo = if b < i { b } else { b - 1 };
        if a != i { lemma_pos(o, ao); assert(u[a] == s[ao] && n.same_at(o, u[a])); }
        if b != i { lemma_pos(o, bo); assert(u[b] == s[bo] && n.same_at(o, u[b])); }
        if a == i && b == i {
            lemma_refl(k);
        } else if a != i && b != i {
            assert(kle(o.key(s[ao]), o.key(s[bo])));
        }
    }
}

pub proof fn lemma_refl<K: Ord>(k: K)
    requires ord_law::<K>(),
    ensures kle(k, k),
{
    assert((k.cmp_spec(&k) == Ordering::Less) == (k.cmp_spec(&k) == Ordering::Greater));
}

/// a removal keeps the keys sorted
pub proof fn lemma_sorted_rem<P: Ptr, K: Ord, V>(o: OrdArena<P, K, V>, n: OrdArena<P, K, V>, p: P::Inx)
    requires o.tree(), o.sorted(), o.a.live(p), n.order() == o.order().remove(o.pos(p)), n.same_but(o, p),
    ensures n.sorted(),
{
    let (s, u) = (o.order(), n.order());
    lemma_live(o, p);
    let i = o.pos(p);
    assert forall|a: int, b: int| #![trigger u[a], u[b]] 0 <= a <= b < u.len() implies kle(n.key(u[a]), n.key(u[b])) by {
        let ao = if a < i { a } else { a + 1 };
        let bo = if b < i { b } else { b + 1 };
        lemma_pos(o, ao); lemma_pos(o, bo);
        assert(n.same_at(o, s[ao]));
        assert(n.same_at(o, s[bo]));
        assert(kle(o.key(s[ao]), o.key(s[bo])));
    }
}

/// a changed value, or none, keeps the keys sorted
pub proof fn lemma_sorted_same<P: Ptr, K: Ord, V>(o: OrdArena<P, K, V>, n: OrdArena<P, K, V>)
    requires o.tree(), o.sorted(), n.order() == o.order(), forall|j: P::Inx| #[trigger] o.a.live(j) ==> n.key(j) == o.key(j),
    ensures n.sorted(),
{
    let s = o.order();
    assert forall|a: int, b: int| #![trigger s[a], s[b]] 0 <= a <= b < s.len() implies kle(n.key(s[a]), n.key(s[b])) by {
        lemma_pos(o, a); lemma_pos(o, b);
        assert(kle(o.key(s[a]), o.key(s[b])));
    }
}

/// some entry has the key `k`
pub open spec fn present<P: Ptr, K: Ord, V>(o: OrdArena<P, K, V>, k: K) -> bool {
    exists|j: int| 0 <= j < o.order().len() && k.cmp_spec(&o.key(#[trigger] o.order()[j])) == Ordering::Equal
}

/// one entry is added
pub open spec fn added<P: Ptr, K, V>(o: OrdArena<P, K, V>, n: OrdArena<P, K, V>, p: P, k: K, v: V) -> bool {
    exists|i: int| #[trigger] ord_ins(o, n, i, p, k, v)
}

/// the value of the entry at `p` is replaced
pub open spec fn revalued<P: Ptr, K, V>(o: OrdArena<P, K, V>, n: OrdArena<P, K, V>, p: P, v: V) -> bool {
    &&& o.has(p) && n.has(p) && n.key(p.sinx()) == o.key(p.sinx()) && n.value(p.sinx()) == v
    &&& n.order() == o.order() && n.same_but(o, p.sinx()) && n.a.keep(o.a)
}

pub open spec fn in_place<P: Ptr, K: Ord, V>(o: OrdArena<P, K, V>, d: Ordering, p: P, k: K) -> bool {
    o.has(p) && (lawful(o) ==> match d {
        Ordering::Equal => k.cmp_spec(&o.key(p.sinx())) == Ordering::Equal,
        _ => beside(o, p.sinx(), d, k) || (d == Ordering::Less && k.cmp_spec(&o.key(p.sinx())) == Ordering::Equal),
    })
}

/// an insertion next to where a search ended
pub proof fn lemma_ins_done2<P: Ptr, K: Ord, V>(o: OrdArena<P, K, V>, n: OrdArena<P, K, V>, p: P, d: Ordering, q: P, k: K, v: V)
    requires o.tree(), o.has(p), in_place(o, d, p, k),
        match d {
            Ordering::Less => ord_ins(o, n, o.pos(p.sinx()), q, k, v),
            Ordering::Greater => ord_ins(o, n, o.pos(p.sinx()) + 1, q, k, v),
            Ordering::Equal => n.order() == o.order() && n.same_but(o, p.sinx()) && n.key(p.sinx()) == o.key(p.sinx()),
        },
    ensures lawful(o) ==> n.sorted(),
        lawful(o) && d == Ordering::Equal ==> present(o, k),
        lawful(o) && d != Ordering::Equal && beside(o, p.sinx(), d, k) ==> !present(o, k),
{
    lemma_live(o, p.sinx());
    let x = p.sinx();
    if lawful(o) {
        match d {
            Ordering::Equal => {
                assert forall|j: P::Inx| #[trigger] o.a.live(j) implies n.key(j) == o.key(j) by { if j != x { assert(n.same_at(o, j)); } }
                lemma_sorted_same(o, n);
                assert(o.order()[o.pos(x)] == x);
            },
            _ => {
                let i = if d == Ordering::Less { o.pos(x) } else { o.pos(x) + 1 };
                let s = o.order();
                assert forall|j: int| #![trigger s[j]] 0 <= j < s.len() implies if j < i { kle(o.key(s[j]), k) } else { kle(k, o.key(s[j])) } by {
                    let y = o.key(s[j]);
                    if beside(o, x, d, k) {
                        assert((k.cmp_spec(&y) == Ordering::Greater) == (y.cmp_spec(&k) == Ordering::Less));
                        assert((k.cmp_spec(&y) == Ordering::Less) == (y.cmp_spec(&k) == Ordering::Greater));
                    } else {
                        let z = o.key(s[o.pos(x)]);
                        assert((k.cmp_spec(&z) == Ordering::Greater) == (z.cmp_spec(&k) == Ordering::Less));
                        assert((k.cmp_spec(&z) == Ordering::Less) == (z.cmp_spec(&k) == Ordering::Greater));
                        assert(kle(k, z) && kle(z, k));
                        if j < i { assert(kle(y, z)); } else { assert(kle(z, y)); }
                    }
                }
                lemma_sorted_ins(o, n, i, q, k, v);
            },
        }
    }
}

pub proof fn lemma_ins_first<P: Ptr, K: Ord, V>(o: OrdArena<P, K, V>, n: OrdArena<P, K, V>, q: P, k: K, v: V)
    requires o.tree(), o.a.a.len == 0, ord_ins(o, n, 0, q, k, v),
    ensures lawful(o) ==> n.sorted() && !present(o, k), added(o, n, q, k, v),
{
    lemma_wit(o);
    if lawful(o) { lemma_sorted_ins(o, n, 0, q, k, v); }
}
@@fn OrdArena::insert props=O01,O02,O04,A03,A04
    requires old(self).wf(), old(self).a.a.len < <P::Inx as PtrInx>::maxi(),
    ensures final(self).wf(), lawful(*old(self)) ==> final(self).sorted(),
        match r.1 {
            None => added(*old(self), *final(self), r.0, k, v) && (lawful(*old(self)) ==> !present(*old(self), k)),
            Some((gk, ov)) => gk == k && ov == old(self).value(r.0.sinx()) && revalued(*old(self), *final(self), r.0, v)
                && (lawful(*old(self)) ==> k.cmp_spec(&old(self).key(r.0.sinx())) == Ordering::Equal),
        },
@start
    let ghost o = *self;
    let ghost mut gp: P = arbitrary();
    let ghost mut gd: Ordering = Ordering::Equal;
    proof { lemma_wit(o); }
@at find_similar_key 0
    proof {
        lemma_live(o, p.sinx());
        gp = p;
        gd = direction;
    }
@end
    proof {
        if o.a.a.len == 0 { lemma_ins_first(o, *self, __r.0, k, v); }
        else { lemma_ins_done2(o, *self, gp, gd, __r.0, k, v); }
    }
@@fn OrdArena::insert_nonhereditary props=O01,O02,O04,A03,A04
    requires old(self).wf(), old(self).a.a.len < <P::Inx as PtrInx>::maxi(),
    ensures final(self).wf(), lawful(*old(self)) ==> final(self).sorted(),
        added(*old(self), *final(self), r, k, v),
@start
    let ghost o = *self;
    let ghost mut gp: P = arbitrary();
    let ghost mut gd: Ordering = Ordering::Equal;
    proof { lemma_wit(o); }
@at find_similar_key 0
    proof {
        lemma_live(o, p.sinx());
        gp = p;
        gd = if direction == Ordering::Equal { Ordering::Less } else { direction };
    }
@end
    proof {
        if o.a.a.len == 0 { lemma_ins_first(o, *self, __r, k, v); }
        else { lemma_ins_done2(o, *self, gp, gd, __r, k, v); }
    }
@@fn OrdArena::insert_linear props=O01,O02,O04,A03,A04
    requires old(self).wf(), old(self).a.a.len < <P::Inx as PtrInx>::maxi(),
    ensures final(self).wf(), lawful(*old(self)) ==> final(self).sorted(),
        match r.1 {
            None => added(*old(self), *final(self), r.0, k, v) && (lawful(*old(self)) ==> !present(*old(self), k)),
            Some((gk, ov)) => gk == k && ov == old(self).value(r.0.sinx()) && revalued(*old(self), *final(self), r.0, v)
                && (lawful(*old(self)) ==> k.cmp_spec(&old(self).key(r.0.sinx())) == Ordering::Equal),
        },
@start
    let ghost o = *self;
    let ghost mut gp: P = arbitrary();
    let ghost mut gd: Ordering = Ordering::Equal;
    proof { lemma_wit(o); }
@at find_similar_key_linear 0
    proof {
        lemma_live(o, p.sinx());
        gp = p;
        gd = direction;
    }
@end
    proof {
        if o.a.a.len == 0 { lemma_ins_first(o, *self, __r.0, k, v); }
        else { lemma_ins_done2(o, *self, gp, gd, __r.0, k, v); }
    }
@@fn OrdArena::insert_nonhereditary_linear props=O01,O02,O04,A03,A04
    requires old(self).wf(), old(self).a.a.len < <P::Inx as PtrInx>::maxi(),
    ensures final(self).wf(), lawful(*old(self)) ==> final(self).sorted(),
        added(*old(self), *final(self), r, k, v),
@start
    let ghost o = *self;
    let ghost mut gp: P = arbitrary();
    let ghost mut gd: Ordering = Ordering::Equal;
    proof { lemma_wit(o); }
@at find_similar_key_linear 0
    proof {
        lemma_live(o, p.sinx());
        gp = p;
        gd = if direction == Ordering::Equal { Ordering::Less } else { direction };
    }
@end
    proof {
        if o.a.a.len == 0 { lemma_ins_first(o, *self, __r, k, v); }
        else { lemma_ins_done2(o, *self, gp, gd, __r, k, v); }
    }
@@fn OrdArena::remove props=O01,O02,O03,O04,A01,A04
    requires old(self).wf(),
    ensures final(self).wf(), final(self).a.a.cap() == old(self).a.a.cap(),
        match r {
            Some((k, v)) => old(self).has(p) && k == old(self).key(p.sinx()) && v == old(self).value(p.sinx())
                && final(self).order() == old(self).order().remove(old(self).pos(p.sinx())) && !final(self).a.live(p.sinx())
                && final(self).same_but(*old(self), p.sinx()) && final(self).a.a.len == old(self).a.a.len - 1
                && final(self).a.a.gen() == old(self).a.a.gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int }),
            None => !old(self).has(p) && final(self).order() == old(self).order() && final(self).same(*old(self))
                && final(self).a.a.len == old(self).a.a.len && final(self).a.a.generation == old(self).a.a.generation,
        },
@@text props=O01,O04
/// besides the value and generation, the entry at `j` is the same
pub open spec fn vt_at<P: Ptr, K, V>(o: Seq<NodeEnt<P, K, V>>, n: Seq<NodeEnt<P, K, V>>, j: int) -> bool {
    match (ent(o, j), ent(n, j)) {
        (None, None) => true,
        (Some((_, l)), Some((_, m))) => l.prev_next == m.prev_next && l.t.k == m.t.k && tn(l.t) == tn(m.t),
        _ => false,
    }
}

pub open spec fn vt_same<P: Ptr, K, V>(o: OrdArena<P, K, V>, n: OrdArena<P, K, V>) -> bool {
    &&& n.a.wf() && n.root == o.root && n.first == o.first && n.last == o.last && n.a.a.len == o.a.a.len
    &&& forall|j: int| #![trigger ent(n.a.a.m@, j)] vt_at(o.a.a.m@, n.a.a.m@, j)
}

pub proof fn lemma_vt<P: Ptr, K, V>(o: OrdArena<P, K, V>, n: OrdArena<P, K, V>)
    requires o.wf(), vt_same(o, n),
    ensures n.wf(), n.order() == o.order(),
{
    hide(t_ok);
    lemma_wit(o);
    assert forall|q: P::Inx| tv(o.a).dom().contains(q) <==> tv(n.a).dom().contains(q) by { assert(vt_at(o.a.a.m@, n.a.a.m@, q.ival())); let _ = ent(n.a.a.m@, q.ival()); }
    assert(tv(n.a) =~= tv(o.a));
    assert forall|k: int| 0 <= k < o.order().len() implies #[trigger] ck_ok(n.a, o.order(), k) by {
        assert(ck_ok(o.a, o.order(), k));
        assert(vt_at(o.a.a.m@, n.a.a.m@, o.order()[k].ival()));
    }
    assert(n.ok(wit(o), o.order()));
    lemma_order(n, wit(o), o.order());
}

/// for references into the arena, whatever is written through them
pub proof fn lemma_vts<P: Ptr, K, V>(o: OrdArena<P, K, V>)
    requires o.wf(),
    ensures forall|n: OrdArena<P, K, V>| #![trigger n.wf()] #![trigger n.order()] vt_same(o, n) ==> n.wf() && n.order() == o.order(),
{
    assert forall|n: OrdArena<P, K, V>| #![trigger n.wf()] vt_same(o, n) implies n.wf() && n.order() == o.order() by { lemma_vt(o, n); }
}

/// an arena without entries
pub proof fn lemma_none<P: Ptr, K, V>(n: OrdArena<P, K, V>)
    requires n.a.wf(), n.a.a.len == 0, n.a.a.none_left(),
    ensures n.wf(), n.order() == Seq::<P::Inx>::empty(),
{
    let g = IMap::new(|q: P::Inx| true, |q: P::Inx| IV { lo: 0, at: 0, hi: 0 });
    let ord = Seq::<P::Inx>::empty();
    let t = tv(n.a);
    assert forall|p: P::Inx| !t.dom().contains(p) by { }
    assert(t_ok(t, n.root, g, ord));
    assert(ch_ok(n.a, ord));
    assert(n.ok(g, ord));
    lemma_order(n, g, ord);
}
@@fn OrdArena::new props=O01,O04,A04
    ensures r.wf(), r.order() == Seq::<P::Inx>::empty(), r.a.a.len == 0, r.a.a.gen() == 2, r.a.a.cap() == 0,
@end
    proof { lemma_none(__r); }
@@fn OrdArena::with_capacity props=O01,O04,A03,A04
    requires capacity <= <P::Inx as PtrInx>::maxi(),
    ensures r.wf(), r.order() == Seq::<P::Inx>::empty(), r.a.a.len == 0, r.a.a.gen() == 2, r.a.a.cap() == capacity,
@@fn OrdArena::reserve props=O01,O04,A03
    requires old(self).wf(), old(self).a.a.cap() + additional <= <P::Inx as PtrInx>::maxi(),
    ensures final(self).wf(), final(self).order() == old(self).order(), final(self).same(*old(self)),
        final(self).a.a.cap() == old(self).a.a.cap() + additional, final(self).a.a.len == old(self).a.a.len, final(self).a.a.generation == old(self).a.a.generation,
@start
    let ghost o = *self;
    proof { lemma_wit(o); }
@end
    proof { lemma_vt(o, *self); }
@@fn OrdArena::clear props=O01,O04,A03,A04,A05
    requires old(self).wf(),
    ensures final(self).wf(), final(self).order() == Seq::<P::Inx>::empty(), final(self).a.keep_inc(old(self).a, old(self).a.a.len as int), final(self).a.a.none_left(),
@start
    proof { lemma_wit(*self); }
@end
    proof { lemma_none(*self); }
@@fn OrdArena::clear_and_shrink props=O01,O04,A03,A04,A05
    requires old(self).wf(),
    ensures final(self).wf(), final(self).order() == Seq::<P::Inx>::empty(), final(self).a.a.none_left(), final(self).a.a.len == 0, final(self).a.a.cap() == 0,
        final(self).a.a.gen() == old(self).a.a.gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int }),
@start
    proof { lemma_wit(*self); }
@end
    proof { lemma_none(*self); }
@@fn OrdArena::get_val_mut props=O01,O04,A01
    requires old(self).wf(),
    ensures final(self).wf(), final(self).order() == old(self).order(), final(self).a.keep(old(self).a),
        match r {
            Some(v) => old(self).has(p) && *v == old(self).value(p.sinx()) && revalued(*old(self), *final(self), p, *final(v)),
            None => !old(self).has(p) && final(self).same(*old(self)),
        },
@start
    proof { lemma_wit(*self); lemma_vts(*self); }
@@fn OrdArena::get_mut props=O01,O04,A01
    requires old(self).wf(),
    ensures final(self).wf(), final(self).order() == old(self).order(), final(self).a.keep(old(self).a),
        match r {
            Some((k, v)) => old(self).has(p) && *k == old(self).key(p.sinx()) && *v == old(self).value(p.sinx()) && revalued(*old(self), *final(self), p, *final(v)),
            None => !old(self).has(p) && final(self).same(*old(self)),
        },
@start
    proof { lemma_wit(*self); lemma_vts(*self); }
@@fn OrdArena as Index::index name=vp_index mono=B:P props=O04,A01
    requires self.a.a.m.wf(), self.has(inx),
    ensures *r == self.value(inx.sinx()),
@@fn OrdArena as IndexMut::index_mut name=vp_index_mut mono=B:P props=O01,O04,A01
    requires old(self).wf(), old(self).has(inx),
    ensures *r == old(self).value(inx.sinx()), final(self).wf(), revalued(*old(self), *final(self), inx, *final(r)),
@@fn OrdArena::get_link props=O01,O04
    requires self.wf(),
    ensures match r {
            Some(l) => self.has(p) && *l.t.0 == self.key(p.sinx()) && *l.t.1 == self.value(p.sinx())
                && ({
                    let (s, i) = (self.order(), self.pos(p.sinx()));
                    &&& match l.prev_next.0 { None => i == 0, Some(q) => i > 0 && self.has(q) && q.sinx() == s[i - 1] }
                    &&& match l.prev_next.1 { None => i == s.len() - 1, Some(q) => i < s.len() - 1 && self.has(q) && q.sinx() == s[i + 1] }
                }),
            None => !self.has(p),
        },
@start
    proof {
        lemma_wit(*self);
        if self.has(p) {
            let i = self.pos(p.sinx());
            lemma_live(*self, p.sinx());
            if i > 0 { lemma_pos(*self, i - 1); }
            if i < self.order().len() - 1 { lemma_pos(*self, i + 1); }
        }
    }
@@fn OrdArena::get_link_no_gen props=O01,O04
    requires self.wf(),
    ensures match r {
            Some((g, l)) => self.a.live(p) && g == self.gen_at(p) && *l.t.0 == self.key(p) && *l.t.1 == self.value(p)
                && ({
                    let (s, i) = (self.order(), self.pos(p));
                    &&& l.prev_next.0 == (if i == 0 { None } else { Some(s[i - 1]) })
                    &&& l.prev_next.1 == (if i == s.len() - 1 { None } else { Some(s[i + 1]) })
                }),
            None => !self.a.live(p),
        },
@start
    proof { lemma_wit(*self); if self.a.live(p) { lemma_live(*self, p); } }
@@fn OrdArena::get2_val_mut props=O01,O04,A01
    requires old(self).wf(),
    ensures final(self).wf(), final(self).order() == old(self).order(), final(self).a.keep(old(self).a),
        match r {
            Some((v0, v1)) => old(self).has(p0) && old(self).has(p1) && p0 != p1 && *v0 == old(self).value(p0.sinx()) && *v1 == old(self).value(p1.sinx())
                && final(self).has(p0) && final(self).has(p1) && final(self).value(p0.sinx()) == *final(v0) && final(self).value(p1.sinx()) == *final(v1)
                && final(self).key(p0.sinx()) == old(self).key(p0.sinx()) && final(self).key(p1.sinx()) == old(self).key(p1.sinx())
                && final(self).same_but2(*old(self), p0.sinx(), p1.sinx()),
            None => (p0 == p1 || !old(self).has(p0) || !old(self).has(p1)) && final(self).same(*old(self)),
        },
@start
    proof { lemma_wit(*self); lemma_vts(*self); }
@@fn OrdArena::invalidate props=O01,O04,A01,A04
    requires old(self).wf(),
    ensures final(self).wf(), final(self).order() == old(self).order(), final(self).a.a.step(old(self).a.a),
        match r {
            Some(q) => old(self).has(p) && q.sinx() == p.sinx() && final(self).has(q) && final(self).a.keep_inc(old(self).a, 0)
                && final(self).key(p.sinx()) == old(self).key(p.sinx()) && final(self).value(p.sinx()) == old(self).value(p.sinx())
                && final(self).same_but(*old(self), p.sinx()) && (<P::Gen as PtrGen>::counted() ==> final(self).a.a.dead(p)),
            None => !old(self).has(p) && final(self).same(*old(self)),
        },
@start
    let ghost o = *self;
    proof { lemma_wit(o); if o.has(p) { lemma_live(o, p.sinx()); } }
@end
    proof {
        if o.has(p) {
            let i = o.pos(p.sinx());
            if i > 0 { lemma_pos(o, i - 1); }
            if i < o.order().len() - 1 { lemma_pos(o, i + 1); }
            assert forall|j: int| #![trigger ent(self.a.a.m@, j)] vt_at(o.a.a.m@, self.a.a.m@, j) by { }
            lemma_vt(o, *self);
            assert forall|j: P::Inx| j != p.sinx() implies #[trigger] self.same_at(o, j) by {
                assert(vt_at(o.a.a.m@, self.a.a.m@, j.ival()));
                let _ = ent(self.a.a.m@, j.ival());
            }
        } else {
            lemma_vt(o, *self);
        }
    }
@@text props=O04
impl<P: Ptr, K, V> OrdArena<P, K, V> {
    pub open spec fn same_but2(self, o: Self, e: P::Inx, f: P::Inx) -> bool {
        forall|j: P::Inx| j != e && j != f ==> #[trigger] self.same_at(o, j)
    }
}
@@fn OrdArena::replace_val_and_keep_gen props=O01,O04,A01,A04
    requires old(self).wf(),
    ensures final(self).wf(), final(self).order() == old(self).order(), final(self).a.keep(old(self).a),
        match r {
            Ok(v) => old(self).has(p) && v == old(self).value(p.sinx()) && revalued(*old(self), *final(self), p, new),
            Err(v) => !old(self).has(p) && v == new && final(self).same(*old(self)),
        },
@start
    proof { lemma_wit(*self); lemma_vts(*self); }
@@fn OrdArena::replace_val_and_update_gen props=O01,O04,A01,A04
    requires old(self).wf(),
    ensures final(self).wf(), final(self).order() == old(self).order(),
        match r {
            Ok((v, q)) => old(self).has(p) && v == old(self).value(p.sinx()) && q.sinx() == p.sinx() && final(self).has(q)
                && final(self).key(p.sinx()) == old(self).key(p.sinx()) && final(self).value(p.sinx()) == new
                && final(self).same_but(*old(self), p.sinx()) && final(self).a.keep_inc(old(self).a, 0)
                && (<P::Gen as PtrGen>::counted() ==> !final(self).has(p)),
            Err(v) => !old(self).has(p) && v == new && final(self).same(*old(self)) && final(self).a.a.generation == old(self).a.a.generation
                && final(self).a.a.cap() == old(self).a.a.cap() && final(self).a.a.len == old(self).a.a.len,
        },
@start
    let ghost o = *self;
    proof { lemma_wit(o); if o.has(p) { lemma_live(o, p.sinx()); } }
@end
    proof {
        if o.has(p) {
            let i = o.pos(p.sinx());
            if i > 0 { lemma_pos(o, i - 1); }
            if i < o.order().len() - 1 { lemma_pos(o, i + 1); }
            assert forall|j: int| #![trigger ent(self.a.a.m@, j)] vt_at(o.a.a.m@, self.a.a.m@, j) by { }
            lemma_vt(o, *self);
            assert forall|j: P::Inx| j != p.sinx() implies #[trigger] self.same_at(o, j) by {
                assert(vt_at(o.a.a.m@, self.a.a.m@, j.ival()));
                let _ = ent(self.a.a.m@, j.ival());
            }
        } else {
            lemma_vt(o, *self);
        }
    }
@@fn OrdArena::swap_vals props=O01,O04,A01,A04
    requires old(self).wf(),
    ensures final(self).wf(), final(self).order() == old(self).order(), final(self).a.keep(old(self).a),
        match r {
            Some(_) => old(self).has(p0) && old(self).has(p1) && final(self).has(p0) && final(self).has(p1)
                && final(self).value(p0.sinx()) == old(self).value(p1.sinx()) && final(self).value(p1.sinx()) == old(self).value(p0.sinx())
                && final(self).key(p0.sinx()) == old(self).key(p0.sinx()) && final(self).key(p1.sinx()) == old(self).key(p1.sinx())
                && final(self).same_but2(*old(self), p0.sinx(), p1.sinx()),
            None => !(old(self).has(p0) && old(self).has(p1)) && final(self).same(*old(self)),
        },
@start
    proof { lemma_wit(*self); lemma_vts(*self); }
@@fn OrdArena as Default::default props=O01,O04,A04
    ensures r.wf(), r.order() == Seq::<P::Inx>::empty(), r.a.a.len == 0, r.a.a.gen() == 2, r.a.a.cap() == 0,
