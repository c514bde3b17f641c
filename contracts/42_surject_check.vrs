@@module surject_check surject/surject_arena.rs
@@text
use crate::chain_no_gen_arena::*;
broadcast use {ptr_axioms, ax_vec_len, ax_vec_cap, arena_lemmas};
@@text props=S01,E02
/// the number of keys with the value at raw index `v` among those of raw index up to `n`
pub open spec fn kcount<P: Ptr, K>(m: Seq<KeyEnt<P, K>>, v: int, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { kcount(m, v, n - 1) + (if kv(m, n) == Some(v) { 1int } else { 0int }) }
}

pub proof fn lemma_kcount<P: Ptr, K>(m: Seq<KeyEnt<P, K>>, v: int, n: int)
    ensures 0 <= kcount(m, v, n), n >= 0 ==> kcount(m, v, n) <= n,
        kcount(m, v, n) > 0 ==> exists|i: int| 1 <= i <= n && #[trigger] kv(m, i) == Some(v),
    decreases n,
{
    if n > 0 {
        lemma_kcount(m, v, n - 1);
        if kv(m, n) == Some(v) { }
    }
}

/// entries without a key do not count
pub proof fn lemma_kcount_skip<P: Ptr, K>(m: Seq<KeyEnt<P, K>>, v: int, i: int, j: int)
    requires 0 <= i <= j, none_in(m, i + 1, j + 1),
    ensures kcount(m, v, j) == kcount(m, v, i),
    decreases j - i,
{
    if i < j {
        assert(ent(m, j) is None);
        lemma_kcount_skip(m, v, i, j - 1);
    }
}

/// distinct keys of the value at `v`, up to raw index `n`
pub open spec fn some_keys<P: Ptr, K>(m: Seq<KeyEnt<P, K>>, v: int, s: Seq<P::Inx>, n: int) -> bool {
    &&& forall|k: int| 0 <= k < s.len() ==> kv(m, (#[trigger] pos(s, k)).ival()) == Some(v) && pos(s, k).ival() <= n
    &&& forall|j: int, k: int| #![trigger pos(s, j), pos(s, k)] 0 <= j < k < s.len() ==> pos(s, j).ival() != pos(s, k).ival()
}

/// distinct keys, as many as there are, are all keys
pub proof fn lemma_cover<P: Ptr, K>(m: Seq<KeyEnt<P, K>>, v: int, s: Seq<P::Inx>, n: int)
    requires some_keys(m, v, s, n), 0 <= n,
    ensures s.len() <= kcount(m, v, n), s.len() == kcount(m, v, n) ==> forall|i: int| #![trigger kv(m, i)] 1 <= i <= n && kv(m, i) == Some(v) ==> non(s, i),
    decreases n,
{
    if n == 0 {
        if s.len() > 0 { assert(pos(s, 0).ival() >= 1); }
    } else if kv(m, n) == Some(v) && non(s, n) {
        let k = choose|k: int| 0 <= k < s.len() && nidx(#[trigger] s[k]) == n;
        assert(pos(s, k).ival() == n);
        let t = s.remove(k);
        assert forall|j: int| 0 <= j < t.len() implies #[trigger] pos(t, j) == pos(s, if j < k { j } else { j + 1 }) by { }
        lemma_cover(m, v, t, n - 1);
        if s.len() == kcount(m, v, n) {
            assert forall|i: int| #![trigger kv(m, i)] 1 <= i <= n && kv(m, i) == Some(v) implies non(s, i) by {
                if i < n {
                    assert(non(t, i));
                    let j = choose|j: int| 0 <= j < t.len() && nidx(#[trigger] t[j]) == i;
                    assert(pos(t, j) == pos(s, if j < k { j } else { j + 1 }));
                    assert(nidx(s[if j < k { j } else { j + 1 }]) == i);
                }
            }
        }
    } else {
        assert forall|k: int| 0 <= k < s.len() implies kv(m, (#[trigger] pos(s, k)).ival()) == Some(v) && pos(s, k).ival() <= n - 1 by {
            if pos(s, k).ival() == n { assert(nidx(s[k]) == n); }
        }
        lemma_cover(m, v, s, n - 1);
    }
}

/// a list of all keys is not longer than their number
pub proof fn lemma_not_fewer<P: Ptr, K>(m: Seq<KeyEnt<P, K>>, v: int, s: Seq<P::Inx>, n: int)
    requires 0 <= n, forall|i: int| #![trigger kv(m, i)] 1 <= i <= n && kv(m, i) == Some(v) ==> non(s, i),
    ensures kcount(m, v, n) <= s.len(),
    decreases n,
{
    if n > 0 {
        if kv(m, n) == Some(v) {
            let k = choose|k: int| 0 <= k < s.len() && nidx(#[trigger] s[k]) == n;
            let t = s.remove(k);
            assert forall|i: int| #![trigger kv(m, i)] 1 <= i <= n - 1 && kv(m, i) == Some(v) implies non(t, i) by {
                let j = choose|j: int| 0 <= j < s.len() && nidx(#[trigger] s[j]) == i;
                assert(t[if j < k { j } else { j - 1 }] == s[j]);
            }
            lemma_not_fewer(m, v, t, n - 1);
        } else {
            lemma_not_fewer(m, v, s, n - 1);
        }
    }
}

pub proof fn lemma_set_count<P: Ptr, K>(m: Seq<KeyEnt<P, K>>, v: int, s: Seq<P::Inx>)
    requires set_of(m, v, s),
    ensures s.len() == kcount(m, v, m.len() as int),
{
    let n = m.len() as int;
    assert forall|k: int| 0 <= k < s.len() implies kv(m, (#[trigger] pos(s, k)).ival()) == Some(v) && pos(s, k).ival() <= n by {
        assert(ent(m, pos(s, k).ival()) is Some);
    }
    lemma_cover(m, v, s, n);
    lemma_not_fewer(m, v, s, n);
}

/// the keys from `s[0]` on, following the links
pub open spec fn trail<P: Ptr, K>(m: Seq<KeyEnt<P, K>>, v: int, s: Seq<P::Inx>) -> bool {
    &&& some_keys(m, v, s, m.len() as int)
    &&& forall|k: int| 0 <= k < s.len() - 1 ==> knx(m, #[trigger] pos(s, k)) == Some(s[k + 1])
}

/// what is to come if the structure is as it should be
pub proof fn lemma_trail<P: Ptr, K>(m: Seq<KeyEnt<P, K>>, v: int, s: Seq<P::Inx>, t: Seq<P::Inx>, p: P::Inx, q: P::Inx)
    requires trail(m, v, s), set_of(m, v, t), t[0] == p, if s.len() == 0 { q == p } else { s[0] == p && knx(m, s.last()) == Some(q) && q != p },
    ensures s.len() < t.len(), kv(m, q.ival()) == Some(v), knx(m, q) is Some, knx(m, q) == Some(p) <==> s.len() + 1 == t.len(),
{
    lemma_set_count(m, v, t);
    lemma_cover(m, v, s, m.len() as int);
    lemma_trail_prefix(m, v, s, t, s.len() as int);
    let n = s.len() as int;
    if n > 0 {
        assert(pos(t, n - 1) == t[n - 1] && s.last() == t[n - 1]);
        assert(knx(m, pos(t, n - 1)) == Some(cyc(t, n - 1)));
    }
    assert(q == t[n]);
    assert(pos(t, n) == t[n]);
    assert(knx(m, pos(t, n)) == Some(cyc(t, n)));
    if n + 1 < t.len() {
        assert(pos(t, n + 1).ival() != pos(t, 0).ival());
    }
}

proof fn lemma_trail_prefix<P: Ptr, K>(m: Seq<KeyEnt<P, K>>, v: int, s: Seq<P::Inx>, t: Seq<P::Inx>, n: int)
    requires trail(m, v, s), set_of(m, v, t), s.len() <= t.len(), 0 <= n <= s.len(), s.len() > 0 ==> t[0] == s[0],
    ensures forall|k: int| 0 <= k < n ==> #[trigger] s[k] == t[k],
    decreases n,
{
    if n > 1 {
        lemma_trail_prefix(m, v, s, t, n - 1);
        assert(s[n - 2] == t[n - 2]);
        assert(pos(s, n - 2) == s[n - 2] && pos(t, n - 2) == t[n - 2]);
        assert(knx(m, pos(t, n - 2)) == Some(cyc(t, n - 2)));
    }
}

/// one more key
pub proof fn lemma_trail_push<P: Ptr, K>(c: ChainNoGenArena<P, Key<P, K>>, v: int, s: Seq<P::Inx>, p: P::Inx, q: P::Inx)
    requires c.wf(), trail(c.a.m@, v, s), kv(c.a.m@, q.ival()) == Some(v), if s.len() == 0 { q == p } else { s[0] == p && knx(c.a.m@, s.last()) == Some(q) && q != p },
    ensures trail(c.a.m@, v, s.push(q)),
{
    let m = c.a.m@;
    let u = s.push(q);
    let n = s.len() as int;
    assert(ent(m, q.ival()) is Some);
    assert forall|k: int| 0 <= k < u.len() implies #[trigger] pos(u, k) == (if k < n { pos(s, k) } else { q }) by { }
    assert forall|j: int, k: int| #![trigger pos(u, j), pos(u, k)] 0 <= j < k < u.len() implies pos(u, j).ival() != pos(u, k).ival() by {
        if k == n && pos(u, j).ival() == q.ival() {
            // two keys before it
            assert(pos(u, j) == q);
            assert(j > 0);
            assert(knx(m, pos(s, j - 1)) == Some(s[j]));
            assert(pos(s, n - 1) == s.last());
            lemma_back(c, pos(s, j - 1), q);
            lemma_back(c, pos(s, n - 1), q);
            assert(pos(s, j - 1).ival() != pos(s, n - 1).ival());
        }
    }
    assert forall|k: int| 0 <= k < u.len() - 1 implies knx(m, #[trigger] pos(u, k)) == Some(u[k + 1]) by {
        if k < n - 1 { assert(knx(m, pos(s, k)) == Some(s[k + 1])); } else { assert(pos(s, k) == s.last()); }
    }
}

proof fn lemma_back<P: Ptr, K>(c: ChainNoGenArena<P, Key<P, K>>, p: P::Inx, q: P::Inx)
    requires c.wf(), knx(c.a.m@, p) == Some(q),
    ensures ent(c.a.m@, q.ival()) matches Some((_, l)) && l.prev_next.0 == Some(p),
{
    let m = c.a.m@;
    assert(ent(m, p.ival()) is Some);
    assert(nsym_at(m, p.ival(), ent(m, p.ival()).unwrap().0, ent(m, p.ival()).unwrap().1));
    assert(entx(m, q.ival()) is Some);
}

/// the whole way around, and there are no further keys
pub proof fn lemma_trail_closed<P: Ptr, K>(m: Seq<KeyEnt<P, K>>, v: int, s: Seq<P::Inx>)
    requires trail(m, v, s), s.len() > 0, knx(m, s.last()) == Some(s[0]), s.len() == kcount(m, v, m.len() as int),
    ensures set_of(m, v, s),
{
    lemma_cover(m, v, s, m.len() as int);
    assert forall|k: int| 0 <= k < s.len() implies knx(m, #[trigger] pos(s, k)) == Some(cyc(s, k)) by {
        if k == s.len() - 1 { assert(pos(s, k) == s.last()); }
    }
    assert forall|i: int| #![trigger kv(m, i)] kv(m, i) == Some(v) implies non(s, i) by {
        assert(ent(m, i) is Some);
    }
}

pub type CountEnt<P> = InternalEntry<PtrNoGen<P>, usize>;

/// the keys of raw index below `c` are counted
pub open spec fn counted_to<P: Ptr, K, V>(m: Seq<KeyEnt<P, K>>, w: Seq<InternalEntry<PtrNoGen<P>, Val<V>>>, n: Seq<CountEnt<P>>, c: int) -> bool {
    forall|v: int| #![trigger ent(n, v)] #![trigger ent(w, v)] match ent(n, v) {
        Some((_, x)) => ent(w, v) is Some && x == kcount(m, v, c - 1),
        None => ent(w, v) is None,
    }
}

/// the values of the keys below `c` are settled, the others still have their counts
pub open spec fn settled_to<P: Ptr, K, V>(m: Seq<KeyEnt<P, K>>, w: Seq<InternalEntry<PtrNoGen<P>, Val<V>>>, n: Seq<CountEnt<P>>, c: int) -> bool {
    &&& forall|v: int| #![trigger ent(n, v)] #![trigger ent(w, v)] match ent(n, v) {
        Some((_, x)) => ent(w, v) is Some && (x == kcount(m, v, m.len() as int) || x == 0 && set_ok(m, v, kcount(m, v, m.len() as int))),
        None => ent(w, v) is None,
    }
    &&& forall|i: int| #![trigger kv(m, i)] i < c ==> match kv(m, i) {
        Some(v) => ent(n, v) matches Some((_, x)) && x == 0,
        None => true,
    }
}

pub open spec fn all_valued<P: Ptr, K, V>(m: Seq<KeyEnt<P, K>>, w: Seq<InternalEntry<PtrNoGen<P>, Val<V>>>, c: int) -> bool {
    forall|i: int| #![trigger kv(m, i)] #![trigger ent(m, i)] i < c ==> match kv(m, i) { Some(v) => ent(w, v) is Some, None => true }
}

pub open spec fn right_counts<P: Ptr, K, V>(m: Seq<KeyEnt<P, K>>, w: Seq<InternalEntry<PtrNoGen<P>, Val<V>>>, c: int) -> bool {
    forall|v: int| #![trigger ent(w, v)] v < c ==> match ent(w, v) { Some((_, x)) => x.key_count@ == kcount(m, v, m.len() as int), None => true }
}

pub proof fn lemma_checked<P: Ptr, K, V>(m: Seq<KeyEnt<P, K>>, w: Seq<InternalEntry<PtrNoGen<P>, Val<V>>>, n: Seq<CountEnt<P>>)
    requires settled_to(m, w, n, m.len() as int + 1), all_valued(m, w, m.len() as int + 1), right_counts(m, w, w.len() as int + 1),
    ensures surj(m, w),
{
    assert forall|i: int| #![trigger kv(m, i)] #![trigger ent(m, i)] (match kv(m, i) { Some(v) => ent(w, v) is Some, None => true }) by { }
    assert forall|v: int| #![trigger ent(w, v)] (match ent(w, v) { Some((_, x)) => set_ok(m, v, x.key_count@ as int), None => true }) by {
        if ent(w, v) is Some {
            let k = kcount(m, v, m.len() as int);
            lemma_kcount(m, v, m.len() as int);
            assert(ent(w, v).unwrap().1.key_count@ == k);
            let i = choose|i: int| 1 <= i <= m.len() && #[trigger] kv(m, i) == Some(v);
            assert(kv(m, i) == Some(v));
            assert(ent(n, v) is Some);
        }
    }
}

pub proof fn lemma_counted<P: Ptr, K, V>(m: Seq<KeyEnt<P, K>>, w: Seq<InternalEntry<PtrNoGen<P>, Val<V>>>, n0: Seq<CountEnt<P>>, n: Seq<CountEnt<P>>, c: int, x: int)
    requires counted_to(m, w, n0, c), all_valued(m, w, c), 1 <= c <= x, none_in(m, c, x), kv(m, x) is Some, ent(n0, kv(m, x).unwrap()) is Some,
        forall|v: int| #![trigger ent(n, v)] v != kv(m, x).unwrap() ==> ent(n, v) == ent(n0, v),
        ent(n, kv(m, x).unwrap()) matches Some((_, y)) && y == ent(n0, kv(m, x).unwrap()).unwrap().1 + 1,
    ensures counted_to(m, w, n, x + 1), all_valued(m, w, x + 1),
{
    assert forall|v: int| #![trigger ent(n, v)] #![trigger ent(w, v)] (match ent(n, v) {
        Some((_, y)) => ent(w, v) is Some && y == kcount(m, v, x),
        None => ent(w, v) is None,
    }) by {
        lemma_kcount_skip(m, v, c - 1, x - 1);
        assert(ent(n0, v) is Some <==> ent(w, v) is Some);
        if v != kv(m, x).unwrap() { assert(ent(n, v) == ent(n0, v)); }
    }
    assert forall|i: int| #![trigger kv(m, i)] #![trigger ent(m, i)] i < x + 1 implies (match kv(m, i) { Some(v) => ent(w, v) is Some, None => true }) by {
        if c <= i < x { assert(ent(m, i) is None); }
        if i == x { assert(ent(n0, kv(m, x).unwrap()) is Some); }
    }
}

pub proof fn lemma_counted_end<P: Ptr, K, V>(m: Seq<KeyEnt<P, K>>, w: Seq<InternalEntry<PtrNoGen<P>, Val<V>>>, n: Seq<CountEnt<P>>, c: int)
    requires counted_to(m, w, n, c), all_valued(m, w, c), 1 <= c <= m.len() + 1, none_in(m, c, m.len() as int + 1),
    ensures counted_to(m, w, n, m.len() as int + 1), all_valued(m, w, m.len() as int + 1),
{
    assert forall|v: int| #![trigger ent(n, v)] #![trigger ent(w, v)] (match ent(n, v) {
        Some((_, y)) => ent(w, v) is Some && y == kcount(m, v, m.len() as int),
        None => ent(w, v) is None,
    }) by {
        lemma_kcount_skip(m, v, c - 1, m.len() as int);
    }
    assert forall|i: int| #![trigger kv(m, i)] #![trigger ent(m, i)] i < m.len() + 1 implies (match kv(m, i) { Some(v) => ent(w, v) is Some, None => true }) by {
        if c <= i { assert(ent(m, i) is None); }
    }
}

pub proof fn lemma_settled<P: Ptr, K, V>(m: Seq<KeyEnt<P, K>>, w: Seq<InternalEntry<PtrNoGen<P>, Val<V>>>, n0: Seq<CountEnt<P>>, n: Seq<CountEnt<P>>, c: int, x: int)
    requires settled_to(m, w, n0, c), 1 <= c <= x, none_in(m, c, x), kv(m, x) is Some, ent(n0, kv(m, x).unwrap()) is Some,
        forall|v: int| #![trigger ent(n, v)] v != kv(m, x).unwrap() ==> ent(n, v) == ent(n0, v),
        ent(n, kv(m, x).unwrap()) matches Some((_, y)) && y == 0,
        ent(n0, kv(m, x).unwrap()).unwrap().1 == 0 || set_ok(m, kv(m, x).unwrap(), kcount(m, kv(m, x).unwrap(), m.len() as int)),
    ensures settled_to(m, w, n, x + 1),
{
    assert forall|v: int| #![trigger ent(n, v)] #![trigger ent(w, v)] (match ent(n, v) {
        Some((_, y)) => ent(w, v) is Some && (y == kcount(m, v, m.len() as int) || y == 0 && set_ok(m, v, kcount(m, v, m.len() as int))),
        None => ent(w, v) is None,
    }) by {
        assert(ent(n0, v) is Some <==> ent(w, v) is Some);
        if v != kv(m, x).unwrap() { assert(ent(n, v) == ent(n0, v)); }
    }
    assert forall|i: int| #![trigger kv(m, i)] i < x + 1 implies (match kv(m, i) { Some(v) => ent(n, v) matches Some((_, y)) && y == 0, None => true }) by {
        if c <= i < x { assert(ent(m, i) is None); }
        if i < c && kv(m, i) is Some { let v = kv(m, i).unwrap(); assert(ent(n0, v) is Some); if v != kv(m, x).unwrap() { assert(ent(n, v) == ent(n0, v)); } }
    }
}

/// a wrong count
pub proof fn lemma_wrong<P: Ptr, K, V>(m: Seq<KeyEnt<P, K>>, w: Seq<InternalEntry<PtrNoGen<P>, Val<V>>>, v: int)
    requires ent(w, v) is Some, ent(w, v).unwrap().1.key_count@ != kcount(m, v, m.len() as int),
    ensures !surj(m, w),
{
    if surj(m, w) {
        let s = choose|s: Seq<P::Inx>| #[trigger] set_of(m, v, s) && s.len() == ent(w, v).unwrap().1.key_count@;
        lemma_set_count(m, v, s);
    }
}

/// what comes next if the structure is as it should be
pub proof fn lemma_expect<P: Ptr, K, V>(m: Seq<KeyEnt<P, K>>, w: Seq<InternalEntry<PtrNoGen<P>, Val<V>>>, v: int, s: Seq<P::Inx>, p: P::Inx, q: P::Inx)
    requires trail(m, v, s), kv(m, p.ival()) == Some(v), if s.len() == 0 { q == p } else { s[0] == p && knx(m, s.last()) == Some(q) && q != p },
    ensures surj(m, w) ==> s.len() < kcount(m, v, m.len() as int) && kv(m, q.ival()) == Some(v) && knx(m, q) is Some && (knx(m, q) == Some(p) <==> s.len() + 1 == kcount(m, v, m.len() as int)),
{
    if surj(m, w) {
        assert(ent(w, v) is Some);
        let t0 = choose|t: Seq<P::Inx>| #[trigger] set_of(m, v, t) && t.len() == ent(w, v).unwrap().1.key_count@;
        let t = lemma_rotate(m, v, t0, p);
        lemma_set_count(m, v, t);
        lemma_trail(m, v, s, t, p, q);
    }
}
@@fn SurjectArena::_check_surjects props=S01,E02
@attr #[verifier::loop_isolation(false)]
@attr #[verifier::allow_complex_invariants]
    requires this.keys.wf(), this.vals.wf(),
    ensures r is Ok <==> surj(this.keys.a.m@, this.vals.m@),
@start
    let ghost m = this.keys.a.m@;
    let ghost w = this.vals.m@;
    let ghost ml = m.len() as int;
@closure 0
    -> (r: usize) ensures r == 0
@before 0
    proof {
        assert forall|v: int| #![trigger ent(count.m@, v)] #![trigger ent(w, v)] (match ent(count.m@, v) {
            Some((_, x)) => ent(w, v) is Some && x == kcount(m, v, 0),
            None => ent(w, v) is None,
        }) by { }
        assert(counted_to(m, w, count.m@, 1));
    }
@loop 0
    invariant $it.arena == &this.keys.a, 1 <= $it.adv.inx@ <= ml + 1, counted_to(m, w, count.m@, $it.adv.inx@ as int), all_valued(m, w, $it.adv.inx@ as int), count.wf(),
    ensures counted_to(m, w, count.m@, ml + 1), all_valued(m, w, ml + 1),
    decreases ml + 1 - $it.adv.inx@,
@body 0
    let ghost c = $it0.adv.inx@ as int;
    let ghost n0 = count.m@;
@pre get_mut 0
    let ghost x = $it0.adv.inx@ - 1;
    proof {
        assert(kv(m, x) == Some(link.t.p_val._internal_inx.ival()));
        lemma_kcount(m, kv(m, x).unwrap(), c - 1);
    }
@tail 0
    proof { lemma_counted(m, w, n0, count.m@, c, $it0.adv.inx@ - 1); }
@break 0
    proof { lemma_counted_end(m, w, count.m@, c); }
@loop 1
    invariant $it.arena == &count, 1 <= $it.adv.inx@, right_counts(m, w, $it.adv.inx@ as int),
    ensures right_counts(m, w, w.len() as int + 1),
    decreases count.m@.len() + 1 - $it.adv.inx@,
@body 1
    let ghost c = $it1.adv.inx@ as int;
@pre get 0
    proof {
        let v = p_val.sinx().ival();
        assert(ent(count.m@, v) is Some && ent(w, v) is Some);
        if ent(w, v).unwrap().1.key_count@ != kcount(m, v, ml) { lemma_wrong(m, w, v); }
    }
@tail 1
    proof {
        assert forall|v: int| #![trigger ent(w, v)] v < $it1.adv.inx@ implies (match ent(w, v) { Some((_, x)) => x.key_count@ == kcount(m, v, ml), None => true }) by {
            if v >= c && v < $it1.adv.inx@ - 1 { assert(ent(count.m@, v) is None); }
        }
    }
@break 1
    proof {
        assert forall|v: int| #![trigger ent(w, v)] v < w.len() + 1 implies (match ent(w, v) { Some((_, x)) => x.key_count@ == kcount(m, v, ml), None => true }) by {
            if v >= c { assert(ent(count.m@, v) is None); }
        }
    }
@before 2
    proof { assert(settled_to(m, w, count.m@, 1)); }
@loop 2
    invariant count.wf(), 1 <= adv.adv.inx@ <= ml + 1, settled_to(m, w, count.m@, adv.adv.inx@ as int),
    ensures settled_to(m, w, count.m@, ml + 1),
    decreases ml + 1 - adv.adv.inx@,
@body 2
    let ghost c0 = adv.adv.inx@ as int;
    let ghost n0 = count.m@;
@pre get 2
    let ghost v = this.keys.a.val(p).t.p_val._internal_inx.ival();
    let ghost mut s: Seq<P::Inx> = Seq::empty();
    proof {
        assert(kv(m, idx(p)) == Some(v));
        assert(ent(w, v) is Some && ent(count.m@, v) is Some);
        lemma_kcount(m, v, ml);
    }
@loop 3
    invariant_except_break count.m@ == n0, trail(m, v, s), c == kcount(m, v, ml) - s.len(), if s.len() == 0 { tmp == p.sinx() } else { s[0] == p.sinx() && knx(m, s.last()) == Some(tmp) && tmp != p.sinx() },
    invariant count.wf(),
    ensures set_ok(m, v, kcount(m, v, ml)), ent(count.m@, v) matches Some((_, y)) && y == 0, forall|u: int| #![trigger ent(count.m@, u)] u != v ==> ent(count.m@, u) == ent(n0, u),
    decreases c,
@body 3
    proof { lemma_expect(m, w, v, s, p.sinx(), tmp); }
@at get_no_gen 0
    proof {
        assert(kv(m, tmp.ival()) == Some(link.t.p_val._internal_inx.ival()));
        if link.t.p_val._internal_inx.ival() == v { lemma_trail_push(this.keys, v, s, p.sinx(), tmp); s = s.push(tmp); }
    }
@pre get_mut 1
    proof {
        if c == 0 { lemma_trail_closed(m, v, s); assert(set_ok(m, v, kcount(m, v, ml))); }
    }
@tail 2
    proof { lemma_settled(m, w, n0, count.m@, c0, adv.adv.inx@ - 1); }
@break 2
    proof {
        assert forall|i: int| #![trigger kv(m, i)] i < ml + 1 implies (match kv(m, i) { Some(v) => ent(count.m@, v) matches Some((_, y)) && y == 0, None => true }) by {
            if c0 <= i { assert(ent(m, i) is None); }
        }
    }
@end
    proof { lemma_checked(m, w, count.m@); }
