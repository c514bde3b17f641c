@@module ord_find ord/find.rs ord/ord_arena.rs
@@text props=O02,O03
use vstd::imap::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
broadcast use {ptr_axioms, ax_vec_len, ax_vec_cap, ax_nchain_vec, arena_lemmas};

/// the keys are sorted by a total order
pub open spec fn lawful<P: Ptr, K: Ord, V>(o: OrdArena<P, K, V>) -> bool {
    ord_law::<K>() && o.sorted()
}

/// all entries before position `lo` have keys less than `k`, and all from `hi` on greater ones
pub open spec fn outside<P: Ptr, K: Ord, V>(o: OrdArena<P, K, V>, lo: int, hi: int, k: K) -> bool {
    &&& forall|j: int| #![trigger o.order()[j]] 0 <= j < lo && j < o.order().len() ==> k.cmp_spec(&o.key(o.order()[j])) == Ordering::Greater
    &&& forall|j: int| #![trigger o.order()[j]] 0 <= hi <= j < o.order().len() ==> k.cmp_spec(&o.key(o.order()[j])) == Ordering::Less
}

/// `k` belongs next to the entry at `p`, in the direction `d`
pub open spec fn beside<P: Ptr, K: Ord, V>(o: OrdArena<P, K, V>, p: P::Inx, d: Ordering, k: K) -> bool {
    &&& d == k.cmp_spec(&o.key(p))
    &&& d == Ordering::Less ==> outside(o, o.pos(p), o.pos(p), k)
    &&& d == Ordering::Greater ==> outside(o, o.pos(p) + 1, o.pos(p) + 1, k)
}

/// what one comparison with the entry at `p` tells about all others
pub proof fn lemma_beside<P: Ptr, K: Ord, V>(o: OrdArena<P, K, V>, p: P::Inx, k: K)
    requires lawful(o), o.tree(), o.a.live(p),
    ensures 0 <= o.pos(p) < o.order().len(), o.order()[o.pos(p)] == p,
        k.cmp_spec(&o.key(p)) == Ordering::Less ==> outside(o, 0, o.pos(p), k),
        k.cmp_spec(&o.key(p)) == Ordering::Greater ==> outside(o, o.pos(p) + 1, o.order().len() as int, k),
{
    lemma_live(o, p);
    let s = o.order();
    assert forall|j: int| #![trigger s[j]] 0 <= j < s.len() implies
        (k.cmp_spec(&o.key(p)) == Ordering::Less && j >= o.pos(p) ==> k.cmp_spec(&o.key(s[j])) == Ordering::Less)
        && (k.cmp_spec(&o.key(p)) == Ordering::Greater && j <= o.pos(p) ==> k.cmp_spec(&o.key(s[j])) == Ordering::Greater) by {
        let (x, y) = (o.key(p), o.key(s[j]));
        let c = k.cmp_spec(&x);
        if c == Ordering::Less && j >= o.pos(p) {
            // k < x <= y
            assert(kle(o.key(s[o.pos(p)]), y));
            assert(x.cmp_spec(&k) == Ordering::Greater);
            if k.cmp_spec(&y) != Ordering::Less {
                lemma_not_less(k, y);
                assert(kle(x, y) && kle(y, k));
                assert(kle(x, k));
            }
        }
        if c == Ordering::Greater && j <= o.pos(p) {
            // y <= x < k
            assert(kle(y, o.key(s[o.pos(p)])));
            assert(x.cmp_spec(&k) == Ordering::Less);
            if k.cmp_spec(&y) != Ordering::Greater {
                assert(kle(k, y) && kle(y, x));
                assert(kle(k, x));
            }
        }
    }
}

pub proof fn lemma_not_less<K: Ord>(a: K, b: K)
    requires ord_law::<K>(), a.cmp_spec(&b) != Ordering::Less,
    ensures kle(b, a),
{
    assert((a.cmp_spec(&b) == Ordering::Less) == (b.cmp_spec(&a) == Ordering::Greater));
}

/// the number of comparisons of a search stays within twice the logarithm of the length
pub open spec fn within_log(steps: int, len: int) -> bool {
    p2((steps + 1) / 2) <= len + 1
}

pub proof fn lemma_log<P: Ptr, K, V>(o: OrdArena<P, K, V>, steps: int)
    requires o.wf(), o.order().len() > 0, 0 <= steps <= tv(o.a)[o.root].rank,
    ensures within_log(steps, o.order().len() as int),
{
    lemma_wit(o);
    let t = tv(o.a);
    lemma_root(t, o.root, wit(o), o.order());
    lemma_rank_size(t, o.root, wit(o), o.order(), o.root, o.root);
    lemma_p2_mono((steps + 1) / 2, (t[o.root].rank + 1) / 2);
}

/// going down one level
pub proof fn lemma_down<P: Ptr, K, V>(o: OrdArena<P, K, V>, p: P::Inx)
    requires o.wf(), o.a.live(p),
    ensures ({
        let (t, g) = (tv(o.a), wit(o));
        &&& 0 <= g[p].lo <= g[p].at < g[p].hi <= o.order().len() && o.order()[g[p].at] == p && g[p].at == o.pos(p)
        &&& t[p].rank >= 1
        &&& match t[p].l {
            Some(c) => o.a.live(c) && t[c].rank < t[p].rank && g[c].lo == g[p].lo && g[c].hi == g[p].at,
            None => g[p].lo == g[p].at,
        }
        &&& match t[p].r {
            Some(c) => o.a.live(c) && t[c].rank < t[p].rank && g[c].lo == g[p].at + 1 && g[c].hi == g[p].hi,
            None => g[p].hi == g[p].at + 1,
        }
    }),
{
    lemma_wit(o);
    let (t, g) = (tv(o.a), wit(o));
    lemma_n(t, o.root, g, o.order(), p);
    assert(r_ok(t, p));
    lemma_rank_size(t, o.root, g, o.order(), p, p);
}
@@fn OrdArena::find_key props=O02,O03
    requires self.wf(),
    ensures match r {
            Some(p) => self.has(p) && (K::obeys_cmp_spec() ==> k.cmp_spec(&self.key(p.sinx())) == Ordering::Equal),
            None => lawful(*self) ==> forall|j: int| #![trigger self.order()[j]] 0 <= j < self.order().len() ==> k.cmp_spec(&self.key(self.order()[j])) != Ordering::Equal,
        },
@start
    hide(t_ok); hide(r_all); hide(ChainNoGenArena::wf);
    let ghost mut steps: int = 0;
    proof { lemma_wit(*self); if self.order().len() > 0 { lemma_root(tv(self.a), self.root, wit(*self), self.order()); } }
@loop 0
    invariant self.wf(), self.a.live(p), self.order().len() > 0,
        0 <= steps, steps + tv(self.a)[p].rank <= tv(self.a)[self.root].rank,
        lawful(*self) ==> outside(*self, wit(*self)[p].lo, wit(*self)[p].hi, *k),
    decreases wit(*self)[p].hi - wit(*self)[p].lo,
@body 0
    proof {
        lemma_wit(*self);
        lemma_down(*self, p);
        steps = steps + 1;
        lemma_log(*self, steps);
        assert(within_log(steps, self.order().len() as int));
        if lawful(*self) { lemma_beside(*self, p, *k); }
    }
@@fn OrdArena::find_similar_key props=O01,O02,O03
    requires self.wf(),
    ensures match r {
            Some((p, d)) => self.has(p) && (K::obeys_cmp_spec() ==> d == k.cmp_spec(&self.key(p.sinx()))) && (lawful(*self) ==> beside(*self, p.sinx(), d, *k)),
            None => self.order().len() == 0,
        },
@start
    hide(t_ok); hide(r_all); hide(ChainNoGenArena::wf);
    let ghost mut steps: int = 0;
    proof { lemma_wit(*self); if self.order().len() > 0 { lemma_root(tv(self.a), self.root, wit(*self), self.order()); } }
@loop 0
    invariant self.wf(), self.a.live(p), self.order().len() > 0,
        0 <= steps, steps + tv(self.a)[p].rank <= tv(self.a)[self.root].rank,
        lawful(*self) ==> outside(*self, wit(*self)[p].lo, wit(*self)[p].hi, *k),
    decreases wit(*self)[p].hi - wit(*self)[p].lo,
@body 0
    proof {
        lemma_wit(*self);
        lemma_down(*self, p);
        steps = steps + 1;
        lemma_log(*self, steps);
        assert(within_log(steps, self.order().len() as int));
        if lawful(*self) { lemma_beside(*self, p, *k); }
    }
@@fn OrdArena::find_key_linear props=O02
    requires self.wf(),
    ensures match r {
            Some(p) => self.has(p) && (K::obeys_cmp_spec() ==> k.cmp_spec(&self.key(p.sinx())) == Ordering::Equal),
            None => lawful(*self) ==> forall|j: int| #![trigger self.order()[j]] 0 <= j < self.order().len() ==> k.cmp_spec(&self.key(self.order()[j])) != Ordering::Equal,
        },
@start
    hide(t_ok); hide(r_all); hide(ChainNoGenArena::wf);
    proof { lemma_wit(*self); }
@loop 0
    invariant self.wf(), self.a.live(p), __e0 == num,
    decreases __e0 - __i0,
@body 0
    proof {
        lemma_wit(*self); lemma_live(*self, p);
        if self.pos(p) > 0 { lemma_pos(*self, self.pos(p) - 1); }
        if self.pos(p) < self.order().len() - 1 { lemma_pos(*self, self.pos(p) + 1); }
    }
@@fn OrdArena::find_similar_key_linear props=O01,O02
    requires self.wf(),
    ensures match r {
            Some((p, d)) => self.has(p) && (K::obeys_cmp_spec() ==> d == k.cmp_spec(&self.key(p.sinx()))) && (lawful(*self) ==> beside(*self, p.sinx(), d, *k)),
            None => self.order().len() == 0,
        },
@start
    hide(t_ok); hide(r_all); hide(ChainNoGenArena::wf);
    proof { lemma_wit(*self); }
@loop 0
    invariant self.wf(), self.a.live(p), __e0 == num,
        lawful(*self) && direction == Some(false) ==> outside(*self, 0, self.pos(p) + 1, *k),
        lawful(*self) && direction == Some(true) ==> outside(*self, self.pos(p), self.order().len() as int, *k),
    decreases __e0 - __i0,
@body 0
    proof {
        lemma_wit(*self); lemma_live(*self, p);
        if lawful(*self) { lemma_beside(*self, p, *k); }
        if self.pos(p) > 0 { lemma_pos(*self, self.pos(p) - 1); }
        if self.pos(p) < self.order().len() - 1 { lemma_pos(*self, self.pos(p) + 1); }
    }
@@text props=O02
/// `c` is what `f` answers for the entries, least first, and it goes from `Greater` over `Equal` to `Less`
pub open spec fn probes<P: Ptr, K, V, F: Fn(P, &K, &V) -> Ordering>(o: OrdArena<P, K, V>, f: F, c: Seq<Ordering>) -> bool {
    &&& c.len() == o.order().len()
    &&& forall|j: int, p: P, d: Ordering| #![trigger c[j], f.ensures((p, &o.key(o.order()[j]), &o.value(o.order()[j])), d)]
        0 <= j < c.len() && o.has(p) && p.sinx() == o.order()[j] && f.ensures((p, &o.key(o.order()[j]), &o.value(o.order()[j])), d) ==> c[j] == d
    &&& forall|i: int, j: int| #![trigger c[i], c[j]] 0 <= i < j < c.len() ==> (c[i] == Ordering::Less ==> c[j] == Ordering::Less) && (c[j] == Ordering::Greater ==> c[i] == Ordering::Greater)
}

/// the entries outside of `lo..hi` are on the other sides
pub open spec fn probed(c: Seq<Ordering>, lo: int, hi: int) -> bool {
    &&& forall|j: int| #![trigger c[j]] 0 <= j < lo && j < c.len() ==> c[j] == Ordering::Greater
    &&& forall|j: int| #![trigger c[j]] 0 <= hi <= j < c.len() ==> c[j] == Ordering::Less
}

/// what one answer tells about all others
pub proof fn lemma_probe<P: Ptr, K, V, F: Fn(P, &K, &V) -> Ordering>(o: OrdArena<P, K, V>, f: F, p: P::Inx)
    requires o.tree(), o.a.live(p),
    ensures forall|c: Seq<Ordering>, q: P, d: Ordering| #![trigger probes(o, f, c), f.ensures((q, &o.key(p), &o.value(p)), d)]
        probes(o, f, c) && o.has(q) && q.sinx() == p && f.ensures((q, &o.key(p), &o.value(p)), d) ==>
            c[o.pos(p)] == d && c.len() == o.order().len()
            && (d == Ordering::Less ==> probed(c, 0, o.pos(p)))
            && (d == Ordering::Greater ==> probed(c, o.pos(p) + 1, c.len() as int)),
{
    lemma_live(o, p);
    assert forall|c: Seq<Ordering>, q: P, d: Ordering| #![trigger probes(o, f, c), f.ensures((q, &o.key(p), &o.value(p)), d)]
        probes(o, f, c) && o.has(q) && q.sinx() == p && f.ensures((q, &o.key(p), &o.value(p)), d) implies
            c[o.pos(p)] == d && c.len() == o.order().len()
            && (d == Ordering::Less ==> probed(c, 0, o.pos(p)))
            && (d == Ordering::Greater ==> probed(c, o.pos(p) + 1, c.len() as int)) by {
        let x = c[o.pos(p)];
        assert(f.ensures((q, &o.key(o.order()[o.pos(p)]), &o.value(o.order()[o.pos(p)])), d));
        assert(x == d);
    }
}

pub proof fn lemma_probes_len<P: Ptr, K, V, F: Fn(P, &K, &V) -> Ordering>(o: OrdArena<P, K, V>, f: F)
    ensures forall|c: Seq<Ordering>| #[trigger] probes(o, f, c) ==> c.len() == o.order().len(),
{
}
@@fn OrdArena::find_with props=O02,O03
    requires self.wf(),
        forall|p: P, k: &K, v: &V| #![trigger f.requires((p, k, v))] f.requires((p, k, v)),
    ensures match r {
            Some(p) => self.has(p) && f.ensures((p, &self.key(p.sinx()), &self.value(p.sinx())), Ordering::Equal),
            None => forall|c: Seq<Ordering>, j: int| #![trigger probes(*self, f, c), c[j]] probes(*self, f, c) && 0 <= j < c.len() ==> c[j] != Ordering::Equal,
        },
@start
    hide(t_ok); hide(r_all); hide(ChainNoGenArena::wf); hide(probes);
    let ghost mut steps: int = 0;
    proof { lemma_wit(*self); lemma_probes_len(*self, f); if self.order().len() > 0 { lemma_root(tv(self.a), self.root, wit(*self), self.order()); } }
@loop 0
    invariant self.wf(), self.a.live(p), self.order().len() > 0,
        forall|p: P, k: &K, v: &V| #![trigger f.requires((p, k, v))] f.requires((p, k, v)),
        0 <= steps, steps + tv(self.a)[p].rank <= tv(self.a)[self.root].rank,
        forall|c: Seq<Ordering>| #[trigger] probes(*self, f, c) ==> probed(c, wit(*self)[p].lo, wit(*self)[p].hi),
    decreases wit(*self)[p].hi - wit(*self)[p].lo,
@body 0
    proof {
        lemma_wit(*self);
        lemma_down(*self, p);
        steps = steps + 1;
        lemma_log(*self, steps);
        assert(within_log(steps, self.order().len() as int));
        lemma_probe(*self, f, p);
    }
    let ghost pp = p;
@tail 0
    proof {
        assert forall|c: Seq<Ordering>| #[trigger] probes(*self, f, c) implies probed(c, wit(*self)[p].lo, wit(*self)[p].hi) by {
            assert(f.ensures((p_with_gen, &self.key(pp), &self.value(pp)), Ordering::Less) || f.ensures((p_with_gen, &self.key(pp), &self.value(pp)), Ordering::Greater));
            assert(self.has(p_with_gen));
            assert(p_with_gen.sinx() == pp);
            assert(c[self.pos(pp)] == Ordering::Less || c[self.pos(pp)] == Ordering::Greater);
            assert(probed(c, wit(*self)[pp].lo, wit(*self)[pp].hi));
        }
    }
@@fn OrdArena::find_similar_with props=O02,O03
    requires self.wf(),
        forall|p: P, k: &K, v: &V| #![trigger f.requires((p, k, v))] f.requires((p, k, v)),
    ensures match r {
            Some((p, d)) => self.has(p) && f.ensures((p, &self.key(p.sinx()), &self.value(p.sinx())), d)
                && (forall|c: Seq<Ordering>| #[trigger] probes(*self, f, c) ==> match d {
                        Ordering::Less => probed(c, self.pos(p.sinx()), self.pos(p.sinx())),
                        Ordering::Equal => true,
                        Ordering::Greater => probed(c, self.pos(p.sinx()) + 1, self.pos(p.sinx()) + 1),
                    }),
            None => self.order().len() == 0,
        },
@start
    hide(t_ok); hide(r_all); hide(ChainNoGenArena::wf); hide(probes);
    let ghost mut steps: int = 0;
    proof { lemma_wit(*self); lemma_probes_len(*self, f); if self.order().len() > 0 { lemma_root(tv(self.a), self.root, wit(*self), self.order()); } }
@loop 0
    invariant self.wf(), self.a.live(p), self.order().len() > 0,
        forall|p: P, k: &K, v: &V| #![trigger f.requires((p, k, v))] f.requires((p, k, v)),
        0 <= steps, steps + tv(self.a)[p].rank <= tv(self.a)[self.root].rank,
        forall|c: Seq<Ordering>| #[trigger] probes(*self, f, c) ==> probed(c, wit(*self)[p].lo, wit(*self)[p].hi),
    decreases wit(*self)[p].hi - wit(*self)[p].lo,
@body 0
    proof {
        lemma_wit(*self);
        lemma_down(*self, p);
        steps = steps + 1;
        lemma_log(*self, steps);
        assert(within_log(steps, self.order().len() as int));
        lemma_probe(*self, f, p);
    }
    let ghost pp = p;
@tail 0
    proof {
        assert forall|c: Seq<Ordering>| #[trigger] probes(*self, f, c) implies probed(c, wit(*self)[p].lo, wit(*self)[p].hi) by {
            assert(f.ensures((p_with_gen, &self.key(pp), &self.value(pp)), Ordering::Less) || f.ensures((p_with_gen, &self.key(pp), &self.value(pp)), Ordering::Greater));
            assert(self.has(p_with_gen));
            assert(p_with_gen.sinx() == pp);
            assert(c[self.pos(pp)] == Ordering::Less || c[self.pos(pp)] == Ordering::Greater);
            assert(probed(c, wit(*self)[pp].lo, wit(*self)[pp].hi));
        }
    }
