@@module ord_clone !core
@@text
broadcast use {std_facts::ax_inx_cloned, ptr_axioms, ax_vec_len, ax_vec_cap, ax_nchain_vec, arena_lemmas};
@@impl Node as Clone props=O05
@in clone contract
    ensures tn(r) == tn(*self), cloned(self.k, r.k), cloned(self.v, r.v)
@@module ord_copies ord/ord_arena.rs
@@text
use crate::chain_no_gen_arena::*;
use vstd::imap::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
@@text props=O05,O03
broadcast use {ptr_axioms, ax_vec_len, ax_vec_cap, ax_nchain_vec, arena_lemmas};

/// the same pointers, links and places in the tree
pub open spec fn place_at<P: Ptr, K, V, L, W>(o: Seq<NodeEnt<P, K, V>>, n: Seq<NodeEnt<P, L, W>>, j: int) -> bool {
    match (ent(o, j), ent(n, j)) {
        (None, None) => true,
        (Some((g, l)), Some((h, m))) => g == h && l.prev_next == m.prev_next && tn(l.t) == tn(m.t),
        _ => false,
    }
}

pub open spec fn placed<P: Ptr, K, V, L, W>(o: OrdArena<P, K, V>, n: OrdArena<P, L, W>) -> bool {
    &&& n.root == o.root && n.first == o.first && n.last == o.last && n.a.a.len == o.a.a.len && n.a.a.generation == o.a.a.generation
    &&& forall|j: int| #![trigger ent(n.a.a.m@, j)] place_at(o.a.a.m@, n.a.a.m@, j)
}

/// a copy with the same places has the same order and balance
pub proof fn lemma_placed<P: Ptr, K, V, L, W>(o: OrdArena<P, K, V>, n: OrdArena<P, L, W>)
    requires o.wf(), n.a.wf(), placed(o, n),
    ensures n.wf(), n.order() == o.order(),
{
    hide(t_ok);
    lemma_wit(o);
    assert forall|q: P::Inx| tv(o.a).dom().contains(q) <==> tv(n.a).dom().contains(q) by { assert(place_at(o.a.a.m@, n.a.a.m@, q.ival())); let _ = ent(n.a.a.m@, q.ival()); }
    assert(tv(n.a) =~= tv(o.a));
    assert forall|k: int| 0 <= k < o.order().len() implies #[trigger] ck_ok(n.a, o.order(), k) by {
        assert(ck_ok(o.a, o.order(), k));
        assert(place_at(o.a.a.m@, n.a.a.m@, o.order()[k].ival()));
    }
    assert(n.ok(wit(o), o.order()));
    lemma_order(n, wit(o), o.order());
}

/// copies of keys compare like the keys
pub open spec fn clone_law<K: Ord + Clone>() -> bool {
    forall|a: K, b: K, c: K, d: K| #![trigger cloned(a, b), cloned(c, d)] cloned(a, b) && cloned(c, d) ==> b.cmp_spec(&d) == a.cmp_spec(&c)
}

/// a copy of a sorted arena is sorted
pub proof fn lemma_sorted_copy<P: Ptr, K: Ord + Clone, V, W>(o: OrdArena<P, K, V>, n: OrdArena<P, K, W>)
    requires o.tree(), o.sorted(), clone_law::<K>(), n.order() == o.order(), forall|j: P::Inx| #![trigger o.a.live(j)] o.a.live(j) ==> cloned(o.key(j), n.key(j)),
    ensures n.sorted(),
{
    let s = o.order();
    assert forall|a: int, b: int| #![trigger s[a], s[b]] 0 <= a <= b < s.len() implies kle(n.key(s[a]), n.key(s[b])) by {
        lemma_pos(o, a); lemma_pos(o, b);
        assert(kle(o.key(s[a]), o.key(s[b])));
        assert(cloned(o.key(s[a]), n.key(s[a])) && cloned(o.key(s[b]), n.key(s[b])));
    }
}
@@fn OrdArena as Clone::clone props=O03,O05,A07
    requires self.wf(),
    ensures r.wf(), placed(*self, r), r.order() == self.order(), r.a.a.cap() == self.a.a.cap(),
        forall|j: P::Inx| #![trigger self.a.live(j)] self.a.live(j) ==> cloned(self.key(j), r.key(j)) && cloned(self.value(j), r.value(j)),
@start
    proof { lemma_wit(*self); }
@end
    proof {
        assert forall|j: int| #![trigger ent(__r.a.a.m@, j)] place_at(self.a.a.m@, __r.a.a.m@, j) by { assert(nlcloned(self.a.a.m@, __r.a.a.m@, j)); }
        lemma_placed(*self, __r);
        assert forall|j: P::Inx| #![trigger self.a.live(j)] self.a.live(j) implies cloned(self.key(j), __r.key(j)) && cloned(self.value(j), __r.value(j)) by {
            assert(nlcloned(self.a.a.m@, __r.a.a.m@, j.ival()));
            let _ = ent(__r.a.a.m@, j.ival());
        }
    }
@@fn OrdArena as Clone::clone_from props=O03,O05,A07
    requires old(self).wf(), source.wf(),
    ensures final(self).wf(), placed(*source, *final(self)), final(self).order() == source.order(),
        final(self).a.a.cap() == (if source.a.a.cap() < old(self).a.a.cap() { old(self).a.a.cap() } else { source.a.a.cap() }),
        forall|j: P::Inx| #![trigger source.a.live(j)] source.a.live(j) ==> cloned(source.key(j), final(self).key(j)) && cloned(source.value(j), final(self).value(j)),
@start
    proof { lemma_wit(*self); lemma_wit(*source); }
@end
    proof {
        assert forall|j: int| #![trigger ent(self.a.a.m@, j)] place_at(source.a.a.m@, self.a.a.m@, j) by { assert(nlcloned(source.a.a.m@, self.a.a.m@, j)); }
        lemma_placed(*source, *self);
        assert forall|j: P::Inx| #![trigger source.a.live(j)] source.a.live(j) implies cloned(source.key(j), self.key(j)) && cloned(source.value(j), self.value(j)) by {
            assert(nlcloned(source.a.a.m@, self.a.a.m@, j.ival()));
            let _ = ent(self.a.a.m@, j.ival());
        }
    }
@@text props=O05
pub open spec fn omappable<P: Ptr, K, V, W, F: Fn(P, &V) -> W>(f: F, o: OrdArena<P, K, V>) -> bool {
    forall|p: P| #[trigger] o.has(p) ==> f.requires((p, &o.value(p.sinx())))
}

pub open spec fn omappable3<P: Ptr, K, V, W, F: Fn(P, &K, &V) -> W>(f: F, o: OrdArena<P, K, V>) -> bool {
    forall|p: P| #[trigger] o.has(p) ==> f.requires((p, &o.key(p.sinx()), &o.value(p.sinx())))
}
@@fn OrdArena::clone_from_with props=O03,O05,A07
    requires old(self).wf(), source.wf(), omappable(map, *source),
    ensures final(self).wf(), placed(*source, *final(self)), final(self).order() == source.order(),
        final(self).a.a.cap() == (if source.a.a.cap() < old(self).a.a.cap() { old(self).a.a.cap() } else { source.a.a.cap() }),
        forall|p: P| #![trigger source.has(p)] source.has(p) ==> cloned(source.key(p.sinx()), final(self).key(p.sinx())) && map.ensures((p, &source.value(p.sinx())), final(self).value(p.sinx())),
@start
    proof {
        lemma_wit(*self); lemma_wit(*source);
        let m = source.a.a.m@;
        assert forall|i: int| #![trigger m[i]] 0 <= i < m.len() implies match m[i] {
            Free(_) => true,
            Allocated(g, u) => map.requires((mkp::<P>(i + 1, g), &u.t.v)),
        } by { assert(ent(m, i + 1) == entx(m, i + 1)); if ent(m, i + 1) is Some { assert(source.has(mkp::<P>(i + 1, ent(m, i + 1).unwrap().0))); } }
    }
@closure 0
    -> (l: Node<P, K, V0>) requires map.requires(($0, &$1.t.v)) ensures tn(l) == tn($1.t), cloned($1.t.k, l.k), map.ensures(($0, &$1.t.v), l.v)
@end
    proof {
        lemma_placed(*source, *self);
        assert forall|p: P| #![trigger source.has(p)] source.has(p) implies cloned(source.key(p.sinx()), self.key(p.sinx())) && map.ensures((p, &source.value(p.sinx())), self.value(p.sinx())) by {
            assert(ent(self.a.a.m@, idx(p)) is Some);
            assert(mkp::<P>(idx(p), p.sgen()) == p);
        }
    }
@@fn OrdArena::clone_to_chain_arena props=O05,A07
    requires self.wf(), old(chain_arena).a.wf(), omappable3(map, *self),
    ensures final(chain_arena).wf(), final(chain_arena).a.generation == self.a.a.generation, final(chain_arena).a.len == self.a.a.len,
        forall|i: int| #![trigger ent(final(chain_arena).a.m@, i)] match ent(final(chain_arena).a.m@, i) {
            None => ent(self.a.a.m@, i) is None,
            Some((g, l)) => ent(self.a.a.m@, i) is Some && ent(self.a.a.m@, i).unwrap().0 == g
                && l.prev_next == (full(self.a.a.m@, ent(self.a.a.m@, i).unwrap().1.prev_next.0), full(self.a.a.m@, ent(self.a.a.m@, i).unwrap().1.prev_next.1))
                && map.ensures((mkp::<P>(i, g), &ent(self.a.a.m@, i).unwrap().1.t.k, &ent(self.a.a.m@, i).unwrap().1.t.v), l.t),
        },
@start
    proof {
        lemma_wit(*self);
        let m = self.a.a.m@;
        assert forall|i: int| #![trigger ent(m, i)] ent(m, i) is Some implies map.requires((mkp::<P>(i, ent(m, i).unwrap().0), &ent(m, i).unwrap().1.t.k, &ent(m, i).unwrap().1.t.v)) by { assert(self.has(mkp::<P>(i, ent(m, i).unwrap().0))); }
    }
@closure 0
    -> (t: U) requires map.requires(($0, &$1.k, &$1.v)) ensures map.ensures(($0, &$1.k, &$1.v), t)
@@fn OrdArena::clone_to_arena props=O05,A07
    requires self.wf(), old(arena).wf(), omappable3(map, *self),
    ensures final(arena).wf(), final(arena).generation == self.a.a.generation, final(arena).len == self.a.a.len,
        forall|i: int| #![trigger ent(final(arena).m@, i)] match ent(final(arena).m@, i) {
            None => ent(self.a.a.m@, i) is None,
            Some((g, t)) => ent(self.a.a.m@, i) is Some && ent(self.a.a.m@, i).unwrap().0 == g
                && map.ensures((mkp::<P>(i, g), &ent(self.a.a.m@, i).unwrap().1.t.k, &ent(self.a.a.m@, i).unwrap().1.t.v), t),
        },
@start
    proof {
        lemma_wit(*self);
        let m = self.a.a.m@;
        assert forall|i: int| #![trigger m[i]] 0 <= i < m.len() implies match m[i] {
            Free(_) => true,
            Allocated(g, u) => map.requires((mkp::<P>(i + 1, g), &u.t.k, &u.t.v)),
        } by { assert(ent(m, i + 1) == entx(m, i + 1)); if ent(m, i + 1) is Some { assert(self.has(mkp::<P>(i + 1, ent(m, i + 1).unwrap().0))); } }
    }
@closure 0
    -> (t: U) requires map.requires(($0, &$1.t.k, &$1.t.v)) ensures map.ensures(($0, &$1.t.k, &$1.t.v), t)
