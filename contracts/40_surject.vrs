@@module surject_spec surject/surject_arena.rs
@@text
broadcast use {ptr_axioms, ax_vec_len, ax_vec_cap, arena_lemmas};
@@type Key
#[verifier::reject_recursive_types(P)]
@@type Val
@@type SurjectArena
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
@@text props=S01,S02,S03
pub type KeyEnt<P, K> = InternalEntry<P, LinkNoGen<P, Key<P, K>>>;

/// the raw index of the value of the key at raw index `i`
pub open spec fn kv<P: Ptr, K>(m: Seq<KeyEnt<P, K>>, i: int) -> Option<int> {
    match ent(m, i) {
        Some((_, l)) => Some(l.t.p_val._internal_inx.ival()),
        None => None,
    }
}

/// the next key of the key at `p`
pub open spec fn knx<P: Ptr, K>(m: Seq<KeyEnt<P, K>>, p: P::Inx) -> Option<P::Inx> {
    match ent(m, p.ival()) {
        Some((_, l)) => l.prev_next.1,
        None => None,
    }
}

/// the key itself, with its generation
pub open spec fn kk<P: Ptr, K>(m: Seq<KeyEnt<P, K>>, i: int) -> Option<(P::Gen, K)> {
    match ent(m, i) {
        Some((g, l)) => Some((g, l.t.k)),
        None => None,
    }
}

pub open spec fn pos<I>(s: Seq<I>, k: int) -> I {
    s[k]
}

/// the position after `k` in a cycle
pub open spec fn cyc<I>(s: Seq<I>, k: int) -> I {
    if k + 1 < s.len() { s[k + 1] } else { s[0] }
}

/// `s` lists, once around, the cyclic chain of exactly the keys that have the
/// value at raw index `v`
pub open spec fn set_of<P: Ptr, K>(m: Seq<KeyEnt<P, K>>, v: int, s: Seq<P::Inx>) -> bool {
    &&& s.len() > 0
    &&& forall|k: int| 0 <= k < s.len() ==> kv(m, (#[trigger] pos(s, k)).ival()) == Some(v)
    &&& forall|k: int| 0 <= k < s.len() ==> knx(m, #[trigger] pos(s, k)) == Some(cyc(s, k))
    &&& forall|j: int, k: int| #![trigger pos(s, j), pos(s, k)] 0 <= j < k < s.len() ==> pos(s, j).ival() != pos(s, k).ival()
    &&& forall|i: int| #![trigger kv(m, i)] kv(m, i) == Some(v) ==> non(s, i)
}

pub open spec fn set_ok<P: Ptr, K>(m: Seq<KeyEnt<P, K>>, v: int, n: int) -> bool {
    exists|s: Seq<P::Inx>| #[trigger] set_of(m, v, s) && s.len() == n
}

/// Every key has a value, and the keys of every value form one cyclic chain of
/// the recorded length
pub open spec fn surj<P: Ptr, K, V>(m: Seq<KeyEnt<P, K>>, w: Seq<InternalEntry<PtrNoGen<P>, Val<V>>>) -> bool {
    &&& forall|i: int| #![trigger kv(m, i)] #![trigger ent(m, i)] match kv(m, i) {
        Some(v) => ent(w, v) is Some,
        None => true,
    }
    &&& forall|v: int| #![trigger ent(w, v)] match ent(w, v) {
        Some((_, x)) => set_ok(m, v, x.key_count@ as int),
        None => true,
    }
}

impl<P: Ptr, K, V> SurjectArena<P, K, V> {
    pub open spec fn wf(self) -> bool {
        self.keys.wf() && self.vals.wf() && surj(self.keys.a.m@, self.vals.m@)
    }

    pub open spec fn has(self, p: P) -> bool {
        self.keys.a.has(p)
    }

    /// the key at `p`
    pub open spec fn key(self, p: P) -> K {
        self.keys.a.val(p).t.k
    }

    /// the raw index of the value that `p` has
    pub open spec fn vi(self, p: P) -> int {
        self.keys.a.val(p).t.p_val._internal_inx.ival()
    }

    /// the value at raw index `v`
    pub open spec fn value(self, v: int) -> Option<V> {
        match self.vals.at(v) {
            Some((_, x)) => Some(x.v),
            None => None,
        }
    }

    /// how many keys are recorded for the value at raw index `v`
    pub open spec fn count(self, v: int) -> int {
        self.vals.at(v).unwrap().1.key_count@ as int
    }

    /// the value that `p` has
    pub open spec fn val(self, p: P) -> V {
        self.vals.at(self.vi(p)).unwrap().1.v
    }

    /// the keys, which value they have, and the values are unchanged
    pub open spec fn same(self, o: Self) -> bool {
        self.same_keys(o) && self.same_vals(o)
    }

    pub open spec fn same_keys(self, o: Self) -> bool {
        &&& forall|i: int| #![trigger kv(self.keys.a.m@, i)] kv(self.keys.a.m@, i) == kv(o.keys.a.m@, i)
        &&& forall|i: int| #![trigger kk(self.keys.a.m@, i)] kk(self.keys.a.m@, i) == kk(o.keys.a.m@, i)
        &&& self.keys.a.len == o.keys.a.len
        &&& self.keys.a.gen() == o.keys.a.gen()
    }

    /// nothing about the keys other than the one at `i` changed
    pub open spec fn keys_except(self, o: Self, i: int) -> bool {
        &&& forall|j: int| #![trigger kv(self.keys.a.m@, j)] j != i ==> kv(self.keys.a.m@, j) == kv(o.keys.a.m@, j)
        &&& forall|j: int| #![trigger kk(self.keys.a.m@, j)] j != i ==> kk(self.keys.a.m@, j) == kk(o.keys.a.m@, j)
    }

    pub open spec fn keys_except2(self, o: Self, i: int, k: int) -> bool {
        &&& forall|j: int| #![trigger kv(self.keys.a.m@, j)] j != i && j != k ==> kv(self.keys.a.m@, j) == kv(o.keys.a.m@, j)
        &&& forall|j: int| #![trigger kk(self.keys.a.m@, j)] j != i && j != k ==> kk(self.keys.a.m@, j) == kk(o.keys.a.m@, j)
    }

    pub open spec fn vals_except2(self, o: Self, v: int, w: int) -> bool {
        forall|u: int| u != v && u != w ==> #[trigger] self.value(u) == o.value(u)
    }

    /// the keys are those of `o` except for the ones of value `v`
    pub open spec fn keys_without(self, o: Self, v: int) -> bool {
        keys_minus(self.keys.a.m@, o.keys.a.m@, v)
    }

    pub open spec fn vals_except(self, o: Self, v: int) -> bool {
        forall|u: int| u != v ==> #[trigger] self.value(u) == o.value(u)
    }

    pub open spec fn same_vals(self, o: Self) -> bool {
        &&& forall|u: int| #[trigger] self.value(u) == o.value(u)
        &&& self.vals.len == o.vals.len
    }

    /// capacities and the generation are unchanged
    pub open spec fn keep(self, o: Self) -> bool {
        &&& self.keys.a.cap() == o.keys.a.cap()
        &&& self.vals.cap() == o.vals.cap()
        &&& self.keys.a.gen() == o.keys.a.gen()
    }
}
/// The same keys, in the same order, form the group `v` in `n`
pub proof fn lemma_set_frame<P: Ptr, K, L>(o: Seq<KeyEnt<P, K>>, n: Seq<KeyEnt<P, L>>, v: int, w: int, s: Seq<P::Inx>)
    requires set_of(o, v, s),
        forall|i: int| #![trigger kv(o, i)] kv(o, i) == Some(v) ==> kv(n, i) == Some(w),
        forall|i: int| #![trigger kv(n, i)] kv(n, i) == Some(w) ==> kv(o, i) == Some(v),
        forall|p: P::Inx| #![trigger knx(n, p)] kv(o, p.ival()) == Some(v) ==> knx(n, p) == knx(o, p),
    ensures set_of(n, w, s),
{
}

/// The group can be listed from any of its keys on
pub proof fn lemma_rotate<P: Ptr, K>(m: Seq<KeyEnt<P, K>>, v: int, s: Seq<P::Inx>, p: P::Inx) -> (t: Seq<P::Inx>)
    requires set_of(m, v, s), kv(m, p.ival()) == Some(v),
    ensures set_of(m, v, t), t.len() == s.len(), t[0] == p,
{
    let k = choose|k: int| 0 <= k < s.len() && nidx(#[trigger] s[k]) == p.ival();
    let n = s.len() as int;
    let t = s.subrange(k, n) + s.subrange(0, k);
    assert(t[0] == p);
    assert forall|j: int| 0 <= j < t.len() implies (#[trigger] pos(t, j)) == pos(s, if j + k < n { j + k } else { j + k - n })
        && cyc(t, j) == cyc(s, if j + k < n { j + k } else { j + k - n }) by {
    }
    assert forall|i: int| #![trigger kv(m, i)] kv(m, i) == Some(v) implies non(t, i) by {
        assert(non(s, i));
        let a = choose|a: int| 0 <= a < s.len() && nidx(#[trigger] s[a]) == i;
        let b = if a >= k { a - k } else { a - k + n };
        assert(t[b] == s[a]);
    }
    t
}

/// The group can be listed up to any of its keys
pub proof fn lemma_rotate_last<P: Ptr, K>(m: Seq<KeyEnt<P, K>>, v: int, s: Seq<P::Inx>, p: P::Inx) -> (t: Seq<P::Inx>)
    requires set_of(m, v, s), kv(m, p.ival()) == Some(v),
    ensures set_of(m, v, t), t.len() == s.len(), t.last() == p,
{
    let u = lemma_rotate(m, v, s, p);
    assert(pos(u, 0) == p);
    assert(pos(u, 0) == u[0]);
    let q = cyc(u, 0);
    let j = if u.len() > 1 { 1int } else { 0int };
    assert(pos(u, j) == q);
    let t = lemma_rotate(m, v, s, q);
    // the position of `p` in `t`
    assert(non(t, p.ival()));
    let k = choose|k: int| 0 <= k < t.len() && nidx(#[trigger] t[k]) == p.ival();
    assert(pos(t, k) == p);
    assert(knx(m, pos(t, k)) == Some(cyc(t, k)));
    assert(cyc(t, k) == t[0]);
    if k + 1 < t.len() {
        assert(pos(t, k + 1) == pos(t, 0));
    }
    t
}

/// distinct keys
pub open spec fn all_live<P: Ptr, K>(m: Seq<KeyEnt<P, K>>, s: Seq<P::Inx>) -> bool {
    &&& forall|k: int| 0 <= k < s.len() ==> kv(m, (#[trigger] pos(s, k)).ival()) is Some
    &&& forall|j: int, k: int| #![trigger pos(s, j), pos(s, k)] 0 <= j < k < s.len() ==> pos(s, j).ival() != pos(s, k).ival()
}

/// there are as many keys as can be listed
pub proof fn lemma_live_len<P: Ptr, K>(m: Seq<KeyEnt<P, K>>, s: Seq<P::Inx>)
    requires all_live(m, s),
    ensures s.len() <= cnt(m),
    decreases s.len(),
{
    if s.len() > 0 {
        let q = s.last();
        let e = InternalEntry::<P, LinkNoGen<P, Key<P, K>>>::Free(q);
        let n = m.update(q.ival() - 1, e);
        let t = s.drop_last();
        assert(pos(s, s.len() - 1) == q);
        assert(ent(m, q.ival()) is Some);
        assert forall|k: int| 0 <= k < t.len() implies kv(n, (#[trigger] pos(t, k)).ival()) is Some by {
            assert(pos(s, k) == pos(t, k));
            assert(pos(s, k).ival() != pos(s, s.len() - 1).ival());
            assert(ent(m, pos(s, k).ival()) == ent(n, pos(s, k).ival()));
        }
        assert forall|j: int, k: int| #![trigger pos(t, j), pos(t, k)] 0 <= j < k < t.len() implies pos(t, j).ival() != pos(t, k).ival() by {
            assert(pos(s, j) == pos(t, j) && pos(s, k) == pos(t, k));
        }
        lemma_live_len(n, t);
        lemma_cnt_update(m, q.ival() - 1, e);
    }
}

pub proof fn lemma_set_len<P: Ptr, K>(m: Seq<KeyEnt<P, K>>, v: int, s: Seq<P::Inx>)
    requires set_of(m, v, s),
    ensures s.len() <= cnt(m),
{
    lemma_live_len(m, s);
}

/// lists one key of each value of `w`
proof fn lemma_one_each<P: Ptr, K, V>(m: Seq<KeyEnt<P, K>>, w: Seq<InternalEntry<PtrNoGen<P>, Val<V>>>, n: int) -> (t: Seq<P::Inx>)
    requires surj(m, w), 0 <= n <= w.len(),
    ensures all_live(m, t), t.len() == cnt(w.take(n)),
        forall|k: int| 0 <= k < t.len() ==> kv(m, (#[trigger] pos(t, k)).ival()).unwrap() <= n,
    decreases n,
{
    if n == 0 {
        Seq::empty()
    } else {
        let t = lemma_one_each(m, w, n - 1);
        lemma_cnt_take(w, n - 1);
        if ent(w, n) is Some {
            let s = choose|s: Seq<P::Inx>| #[trigger] set_of(m, n, s) && s.len() == ent(w, n).unwrap().1.key_count@;
            assert(pos(s, 0) == s[0]);
            let u = t.push(s[0]);
            assert forall|k: int| 0 <= k < u.len() implies (#[trigger] pos(u, k)) == (if k < t.len() { pos(t, k) } else { pos(s, 0) }) by {}
            u
        } else {
            t
        }
    }
}

/// there are at least as many keys as values
pub proof fn lemma_counts<P: Ptr, K, V>(c: SurjectArena<P, K, V>)
    requires c.wf(),
    ensures c.vals.len <= c.keys.a.len, c.vals.len == 0 <==> c.keys.a.len == 0,
{
    let (m, w) = (c.keys.a.m@, c.vals.m@);
    let t = lemma_one_each(m, w, w.len() as int);
    assert(w.take(w.len() as int) =~= w);
    lemma_live_len(m, t);
    if c.vals.len == 0 {
        assert forall|i: int| 0 <= i < m.len() implies !((#[trigger] m[i]) is Allocated) by {
            assert(ent(m, i + 1) is Some ==> kv(m, i + 1) is Some);
            if m[i] is Allocated { lemma_cnt_some(w, kv(m, i + 1).unwrap() - 1); }
        }
        lemma_cnt_zero(m);
    }
}

/// the group of a key
pub proof fn lemma_set<P: Ptr, K, V>(c: SurjectArena<P, K, V>, p: P) -> (s: Seq<P::Inx>)
    requires c.wf(), c.has(p),
    ensures set_of(c.keys.a.m@, c.vi(p), s), c.vals.at(c.vi(p)) is Some, s.len() == c.vals.at(c.vi(p)).unwrap().1.key_count@,
        s.len() <= c.keys.a.len, s[0] == p.sinx(),
{
    let m = c.keys.a.m@;
    assert(kv(m, idx(p)) == Some(c.vi(p)));
    assert(ent(c.vals.m@, c.vi(p)) is Some);
    let s = choose|s: Seq<P::Inx>| #[trigger] set_of(m, c.vi(p), s) && s.len() == c.vals.at(c.vi(p)).unwrap().1.key_count@;
    lemma_set_len(m, c.vi(p), s);
    lemma_rotate(m, c.vi(p), s, p.sinx())
}

/// The links of a group form a whole cyclic chain
pub proof fn lemma_set_chain<P: Ptr, K>(c: ChainNoGenArena<P, Key<P, K>>, v: int, s: Seq<P::Inx>)
    requires c.wf(), set_of(c.a.m@, v, s),
    ensures nis_chain(c, s), c.nx(s.last()) == Some(s[0]),
{
    assert forall|k: int| 0 <= k < s.len() implies c.live(#[trigger] s[k]) by { assert(pos(s, k) == s[k]); }
    assert forall|k: int| #![trigger s[k]] 0 <= k < s.len() - 1 implies c.nx(s[k]) == Some(s[k + 1]) by { assert(pos(s, k) == s[k]); }
    assert forall|j: int, k: int| #![trigger s[j], s[k]] 0 <= j < k < s.len() implies nidx(s[j]) != nidx(s[k]) by {
        assert(pos(s, k) == s[k] && pos(s, j) == s[j]);
    }
    assert(pos(s, s.len() - 1) == s.last());
}

/// One cyclic chain is listed in one way from a given start
pub proof fn lemma_cycle_unique<P: Ptr, T>(c: ChainNoGenArena<P, T>, s: Seq<P::Inx>, t: Seq<P::Inx>)
    requires nis_chain(c, s), nis_chain(c, t), s[0] == t[0], c.nx(s.last()) == Some(s[0]), c.nx(t.last()) == Some(t[0]),
    ensures s == t,
{
    lemma_cycle_prefix(c, s, t, if s.len() < t.len() { s.len() as int } else { t.len() as int });
    if s.len() < t.len() {
        assert(t[s.len() - 1] == s.last());
        assert(t[s.len() as int] == t[0]);
    }
    if t.len() < s.len() {
        assert(s[t.len() - 1] == t.last());
        assert(s[t.len() as int] == s[0]);
    }
    assert(s =~= t);
}

proof fn lemma_cycle_prefix<P: Ptr, T>(c: ChainNoGenArena<P, T>, s: Seq<P::Inx>, t: Seq<P::Inx>, n: int)
    requires nis_chain(c, s), nis_chain(c, t), s[0] == t[0], 0 < n <= s.len(), n <= t.len(),
    ensures forall|k: int| 0 <= k < n ==> s[k] == #[trigger] t[k],
    decreases n,
{
    if n > 1 {
        lemma_cycle_prefix(c, s, t, n - 1);
        assert(s[n - 2] == t[n - 2]);
    }
}
/// the keys are those of `o` except for the ones of value `v`
pub open spec fn keys_minus<P: Ptr, K>(n: Seq<KeyEnt<P, K>>, o: Seq<KeyEnt<P, K>>, v: int) -> bool {
    &&& forall|j: int| #![trigger kv(n, j)] kv(n, j) == (if kv(o, j) == Some(v) { None } else { kv(o, j) })
    &&& forall|j: int| #![trigger kk(n, j)] kk(n, j) == (if kv(o, j) == Some(v) { None } else { kk(o, j) })
}

/// nothing relevant changed
pub proof fn lemma_surj_same<P: Ptr, K, V>(o: SurjectArena<P, K, V>, n: SurjectArena<P, K, V>)
    requires o.wf(), n.keys.wf(), n.vals.wf(), n.keys.a.same(o.keys.a), n.vals.same(o.vals),
    ensures n.wf(), n.same(o),
{
    let (a, b) = (o.keys.a.m@, n.keys.a.m@);
    assert forall|i: int| #![trigger kv(b, i)] kv(b, i) == kv(a, i) && kk(b, i) == kk(a, i) by {}
    assert forall|v: int| #![trigger ent(n.vals.m@, v)] match ent(n.vals.m@, v) { Some((_, x)) => set_ok(b, v, x.key_count@ as int), None => true } by {
        assert(ent(n.vals.m@, v) == ent(o.vals.m@, v));
        if ent(n.vals.m@, v) is Some {
            let s = choose|s: Seq<P::Inx>| #[trigger] set_of(a, v, s) && s.len() == ent(o.vals.m@, v).unwrap().1.key_count@;
            lemma_set_frame(a, b, v, v, s);
        }
    }
}

/// as long as the order in the groups and the counts stay
pub broadcast proof fn lemma_surj_keep<P: Ptr, K, L, V, W>(a: Seq<KeyEnt<P, K>>, x: Seq<InternalEntry<PtrNoGen<P>, Val<V>>>, b: Seq<KeyEnt<P, L>>, y: Seq<InternalEntry<PtrNoGen<P>, Val<W>>>)
    requires #[trigger] surj(a, x),
        forall|i: int| #![trigger kv(b, i)] kv(b, i) == kv(a, i),
        forall|c: P::Inx| #![trigger knx(b, c)] knx(b, c) == knx(a, c),
        forall|v: int| #![trigger ent(y, v)] match (ent(x, v), ent(y, v)) {
            (None, None) => true,
            (Some((_, c)), Some((_, d))) => c.key_count == d.key_count,
            _ => false,
        },
    ensures #[trigger] surj(b, y),
{
    assert forall|i: int| #![trigger kv(b, i)] #![trigger ent(b, i)] match kv(b, i) { Some(v) => ent(y, v) is Some, None => true } by {
        if kv(b, i) is Some {
            assert(kv(a, i) == kv(b, i));
            assert(ent(x, kv(b, i).unwrap()) is Some);
            assert(ent(y, kv(b, i).unwrap()) == ent(y, kv(b, i).unwrap()));
        }
    }
    assert forall|v: int| #![trigger ent(y, v)] match ent(y, v) { Some((_, z)) => set_ok(b, v, z.key_count@ as int), None => true } by {
        if ent(y, v) is Some {
            assert(ent(x, v) is Some);
            let s = choose|s: Seq<P::Inx>| #[trigger] set_of(a, v, s) && s.len() == ent(x, v).unwrap().1.key_count@;
            lemma_set_frame(a, b, v, v, s);
        }
    }
}

/// a new key with a new value
pub proof fn lemma_inserted<P: Ptr, K, V>(o: SurjectArena<P, K, V>, n: SurjectArena<P, K, V>, r: P)
    requires o.wf(), n.keys.wf(), n.vals.wf(), n.keys.inserted(o.keys, r, (Some(r.sinx()), Some(r.sinx()))),
        o.vals.at(n.vi(r)) is None, n.vals.at(n.vi(r)) is Some, n.vals.at(n.vi(r)).unwrap().1.key_count@ == 1,
        n.vals.same_except(o.vals, n.vi(r)),
    ensures n.wf(), n.keys_except(o, idx(r)), n.vals_except(o, n.vi(r)), n.has(r), kk(o.keys.a.m@, idx(r)) is None,
{
    let (a, b) = (o.keys.a.m@, n.keys.a.m@);
    let (x, y) = (o.vals.m@, n.vals.m@);
    let w = n.vi(r);
    assert forall|i: int| #![trigger kv(b, i)] i != idx(r) implies kv(b, i) == kv(a, i) by {
        assert(ent(b, i) == entx(b, i));
    }
    assert forall|i: int| #![trigger kk(b, i)] i != idx(r) implies kk(b, i) == kk(a, i) by {
        assert(ent(b, i) == entx(b, i));
    }
    assert(kv(b, idx(r)) == Some(w));
    assert(kv(a, idx(r)) is None);
    assert forall|i: int| #![trigger kv(a, i)] kv(a, i) != Some(w) by {
        assert(ent(a, i) == entx(a, i));
    }
    assert forall|i: int| #![trigger kv(b, i)] #![trigger ent(b, i)] match kv(b, i) { Some(v) => ent(y, v) is Some, None => true } by {
        assert(kv(a, i) == kv(a, i));
        if i != idx(r) && kv(b, i) is Some {
            assert(ent(x, kv(b, i).unwrap()) is Some);
        }
    }
    assert forall|v: int| #![trigger ent(y, v)] match ent(y, v) { Some((_, z)) => set_ok(b, v, z.key_count@ as int), None => true } by {
        if v == w {
            let s = seq![r.sinx()];
            assert(pos(s, 0) == r.sinx());
            assert forall|i: int| #![trigger kv(b, i)] kv(b, i) == Some(w) implies non(s, i) by {
                if i != idx(r) { assert(kv(a, i) == Some(w)); }
                assert(s[0].ival() == i);
            }
            assert(knx(b, r.sinx()) == Some(r.sinx()));
            assert(set_of(b, w, s));
        } else if ent(y, v) is Some {
            assert(ent(y, v) == ent(x, v));
            let s = choose|s: Seq<P::Inx>| #[trigger] set_of(a, v, s) && s.len() == ent(x, v).unwrap().1.key_count@;
            assert forall|p: P::Inx| #![trigger knx(b, p)] kv(a, p.ival()) == Some(v) implies knx(b, p) == knx(a, p) by {
                assert(ent(b, p.ival()) == entx(b, p.ival()));
            }
            lemma_set_frame(a, b, v, v, s);
        }
    }
    assert forall|u: int| u != w implies #[trigger] n.value(u) == o.value(u) by { assert(ent(y, u) == ent(x, u)); }
}

/// a new key `r` after `p` in its group
pub proof fn lemma_key_inserted<P: Ptr, K, V>(o: SurjectArena<P, K, V>, n: SurjectArena<P, K, V>, p: P, r: P)
    requires o.wf(), n.keys.wf(), n.vals.wf(), o.has(p), n.keys.inserted(o.keys, r, (Some(p.sinx()), o.keys.nx(p.sinx()))),
        n.vi(r) == o.vi(p), o.vals.at(o.vi(p)) is Some, n.vals.at(o.vi(p)) is Some,
        n.vals.at(o.vi(p)).unwrap().1.v == o.vals.at(o.vi(p)).unwrap().1.v,
        n.vals.at(o.vi(p)).unwrap().1.key_count@ == o.vals.at(o.vi(p)).unwrap().1.key_count@ + 1,
        n.vals.same_except(o.vals, o.vi(p)), n.vals.len == o.vals.len,
    ensures n.wf(), n.keys_except(o, idx(r)), n.same_vals(o), n.has(r), kk(o.keys.a.m@, idx(r)) is None,
{
    let (a, b) = (o.keys.a.m@, n.keys.a.m@);
    let (x, y) = (o.vals.m@, n.vals.m@);
    let w = o.vi(p);
    assert(kv(a, idx(p)) == Some(w));
    let s0 = lemma_set(o, p);
    let s = lemma_rotate_last(a, w, s0, p.sinx());
    assert(pos(s, s.len() - 1) == p.sinx());
    let q = s[0];
    assert(knx(a, p.sinx()) == Some(q));
    assert forall|i: int| #![trigger kv(b, i)] i != idx(r) implies kv(b, i) == kv(a, i) by {
        assert(ent(b, i) == entx(b, i));
    }
    assert forall|i: int| #![trigger kk(b, i)] i != idx(r) implies kk(b, i) == kk(a, i) by {
        assert(ent(b, i) == entx(b, i));
    }
    assert(kv(b, idx(r)) == Some(w));
    assert(kv(a, idx(r)) is None);
    assert forall|c: P::Inx| #![trigger knx(b, c)] c != r.sinx() && c != p.sinx() implies knx(b, c) == knx(a, c) by {
        assert(ent(b, c.ival()) == entx(b, c.ival()));
    }
    assert(knx(b, r.sinx()) == Some(q));
    assert(knx(b, p.sinx()) == Some(r.sinx())) by { assert(ent(b, idx(p)) == entx(b, idx(p))); }
    assert forall|i: int| #![trigger kv(b, i)] #![trigger ent(b, i)] match kv(b, i) { Some(v) => ent(y, v) is Some, None => true } by {
        assert(kv(a, i) == kv(a, i));
        if i != idx(r) && kv(b, i) is Some {
            assert(ent(x, kv(b, i).unwrap()) is Some);
        }
    }
    assert forall|v: int| #![trigger ent(y, v)] match ent(y, v) { Some((_, z)) => set_ok(b, v, z.key_count@ as int), None => true } by {
        if v == w {
            let t = s.push(r.sinx());
            assert forall|k: int| 0 <= k < t.len() implies kv(b, (#[trigger] pos(t, k)).ival()) == Some(w) && knx(b, pos(t, k)) == Some(cyc(t, k)) by {
                if k < s.len() {
                    assert(pos(t, k) == pos(s, k));
                    if k < s.len() - 1 {
                        assert(pos(s, k).ival() != pos(s, s.len() - 1).ival());
                    }
                }
            }
            assert forall|j: int, k: int| #![trigger pos(t, j), pos(t, k)] 0 <= j < k < t.len() implies pos(t, j).ival() != pos(t, k).ival() by {
                assert(pos(t, j) == pos(s, j));
                if k < s.len() { assert(pos(t, k) == pos(s, k)); }
            }
            assert forall|i: int| #![trigger kv(b, i)] kv(b, i) == Some(w) implies non(t, i) by {
                if i == idx(r) { assert(t[s.len() as int].ival() == i); } else {
                    assert(kv(a, i) == Some(w));
                    let k = choose|k: int| 0 <= k < s.len() && nidx(#[trigger] s[k]) == i;
                    assert(t[k] == s[k]);
                }
            }
            assert(set_of(b, w, t));
        } else if ent(y, v) is Some {
            assert(ent(y, v) == ent(x, v));
            let s = choose|s: Seq<P::Inx>| #[trigger] set_of(a, v, s) && s.len() == ent(x, v).unwrap().1.key_count@;
            lemma_set_frame(a, b, v, v, s);
        }
    }
    assert forall|u: int| #[trigger] n.value(u) == o.value(u) by { if u != w { assert(ent(y, u) == ent(x, u)); } }
}

/// What the keys look like after the removal of the first one of `s`
pub open spec fn key_gone<P: Ptr, K>(a: Seq<KeyEnt<P, K>>, b: Seq<KeyEnt<P, K>>, i: int, w: int, s: Seq<P::Inx>) -> bool {
    &&& forall|j: int| #![trigger kv(b, j)] kv(b, j) == (if j == i { None } else { kv(a, j) })
    &&& forall|j: int| #![trigger kk(b, j)] kk(b, j) == (if j == i { None } else { kk(a, j) })
    &&& forall|c: P::Inx| #![trigger knx(b, c)] kv(a, c.ival()) != Some(w) ==> knx(b, c) == knx(a, c)
    &&& s.len() > 1 ==> set_of(b, w, s.skip(1))
    &&& s.len() == 1 ==> forall|j: int| #![trigger kv(a, j)] kv(a, j) == Some(w) ==> j == i
}

pub proof fn lemma_key_removed<P: Ptr, K>(o: ChainNoGenArena<P, Key<P, K>>, n: ChainNoGenArena<P, Key<P, K>>, p: P, w: int, s: Seq<P::Inx>)
    requires o.wf(), o.has(p), set_of(o.a.m@, w, s), s[0] == p.sinx(), kv(o.a.m@, idx(p)) == Some(w),
        n.a.at(idx(p)) is None,
        ({
            let l = o.a.val(p);
            forall|j: int| #![trigger ent(n.a.m@, j)] j != idx(p) ==> ent(n.a.m@, j)
                == nlset(ent(o.a.m@, j), nis_at(l.prev_next.1, j), l.prev_next.0, nis_at(l.prev_next.0, j), l.prev_next.1)
        }),
    ensures key_gone(o.a.m@, n.a.m@, idx(p), w, s),
{
    let (a, b) = (o.a.m@, n.a.m@);
    let l = o.a.val(p);
    assert forall|i: int| #![trigger kv(b, i)] kv(b, i) == (if i == idx(p) { None } else { kv(a, i) }) by {
        assert(ent(b, i) == entx(b, i));
    }
    assert forall|i: int| #![trigger kk(b, i)] kk(b, i) == (if i == idx(p) { None } else { kk(a, i) }) by {
        assert(ent(b, i) == entx(b, i));
    }
    // the previous key is the last one of the list
    let z = s.last();
    assert(pos(s, s.len() - 1) == z);
    assert(pos(s, 0) == p.sinx());
    assert(o.live(z));
    assert(knx(a, z) == Some(p.sinx()));
    lemma_nnb(o, z);
    assert(l.prev_next.0 == Some(z));
    assert(l.prev_next.1 == Some(cyc(s, 0)));
    assert forall|c: P::Inx| #![trigger knx(b, c)] c != p.sinx() implies knx(b, c) == (if c == z { Some(cyc(s, 0)) } else { knx(a, c) }) by {
        assert(ent(b, c.ival()) == entx(b, c.ival()));
        if c.ival() == z.ival() { assert(c == z); }
    }
    if s.len() > 1 {
        let t = s.skip(1);
        assert forall|k: int| 0 <= k < t.len() implies (#[trigger] pos(t, k)) == pos(s, k + 1) by {}
        assert forall|k: int| 0 <= k < t.len() implies kv(b, (#[trigger] pos(t, k)).ival()) == Some(w) && knx(b, pos(t, k)) == Some(cyc(t, k)) by {
            assert(pos(s, k + 1).ival() != pos(s, 0).ival());
            if k + 1 < s.len() - 1 { assert(pos(s, k + 1).ival() != pos(s, s.len() - 1).ival()); }
        }
        assert forall|i: int| #![trigger kv(b, i)] kv(b, i) == Some(w) implies non(t, i) by {
            assert(kv(a, i) == Some(w));
            let k = choose|k: int| 0 <= k < s.len() && nidx(#[trigger] s[k]) == i;
            assert(t[k - 1] == s[k]);
        }
        assert(set_of(b, w, t));
    } else {
        assert forall|j: int| #![trigger kv(a, j)] kv(a, j) == Some(w) implies j == idx(p) by {
            assert(non(s, j));
        }
    }
}

pub proof fn lemma_removed<P: Ptr, K, V>(o: SurjectArena<P, K, V>, n: SurjectArena<P, K, V>, p: P, s: Seq<P::Inx>)
    requires o.wf(), n.keys.wf(), n.vals.wf(), o.has(p), key_gone(o.keys.a.m@, n.keys.a.m@, idx(p), o.vi(p), s),
        set_of(o.keys.a.m@, o.vi(p), s), s.len() == o.vals.at(o.vi(p)).unwrap().1.key_count@, s[0] == p.sinx(),
        n.vals.same_except(o.vals, o.vi(p)),
        match n.vals.at(o.vi(p)) {
            Some((_, x)) => s.len() > 1 && x.key_count@ == s.len() - 1,
            None => s.len() == 1,
        },
    ensures n.wf(), n.keys_except(o, idx(p)), n.vals_except(o, o.vi(p)), kk(n.keys.a.m@, idx(p)) is None,
        s.len() > 1 ==> exists|i: int| #![trigger kv(o.keys.a.m@, i)] kv(o.keys.a.m@, i) == Some(o.vi(p)) && i != idx(p),
{
    let (a, b) = (o.keys.a.m@, n.keys.a.m@);
    let (x, y) = (o.vals.m@, n.vals.m@);
    let w = o.vi(p);
    assert forall|i: int| #![trigger kv(b, i)] #![trigger ent(b, i)] match kv(b, i) { Some(v) => ent(y, v) is Some, None => true } by {
        if kv(b, i) is Some {
            let v = kv(b, i).unwrap();
            assert(kv(a, i) == Some(v));
            assert(ent(x, v) is Some);
            if v != w { assert(ent(y, v) == ent(x, v)); }
        }
    }
    assert forall|v: int| #![trigger ent(y, v)] match ent(y, v) { Some((_, z)) => set_ok(b, v, z.key_count@ as int), None => true } by {
        if v != w && ent(y, v) is Some {
            assert(ent(y, v) == ent(x, v));
            let s = choose|s: Seq<P::Inx>| #[trigger] set_of(a, v, s) && s.len() == ent(x, v).unwrap().1.key_count@;
            assert(kv(a, idx(p)) == Some(w));
            lemma_set_frame(a, b, v, v, s);
        }
    }
    assert forall|u: int| u != w implies #[trigger] n.value(u) == o.value(u) by { assert(ent(y, u) == ent(x, u)); }
    if s.len() > 1 { assert(pos(s, 1).ival() != pos(s, 0).ival()); assert(kv(a, pos(s, 1).ival()) == Some(w)); }
}

/// the whole group `s` of `p` was removed
pub proof fn lemma_set_removed<P: Ptr, K, V>(o: SurjectArena<P, K, V>, n: SurjectArena<P, K, V>, p: P, s: Seq<P::Inx>)
    requires o.wf(), n.keys.wf(), n.vals.wf(), o.has(p), set_of(o.keys.a.m@, o.vi(p), s), s[0] == p.sinx(),
        exists|path: Seq<P::Inx>| #[trigger] nis_chain(o.keys, path) && path[0] == p.sinx() && o.keys.nx(path.last()) == Some(p.sinx())
            && nwithout(o.keys.a.m@, n.keys.a.m@, path) && n.keys.a.len == o.keys.a.len - path.len(),
        n.vals.same_except(o.vals, o.vi(p)), n.vals.at(o.vi(p)) is None,
    ensures n.wf(), n.keys_without(o, o.vi(p)), n.vals_except(o, o.vi(p)), n.keys.a.len == o.keys.a.len - s.len(),
{
    let (a, b) = (o.keys.a.m@, n.keys.a.m@);
    let (x, y) = (o.vals.m@, n.vals.m@);
    let w = o.vi(p);
    let path = choose|path: Seq<P::Inx>| #[trigger] nis_chain(o.keys, path) && path[0] == p.sinx() && o.keys.nx(path.last()) == Some(p.sinx())
            && nwithout(o.keys.a.m@, n.keys.a.m@, path) && n.keys.a.len == o.keys.a.len - path.len();
    lemma_set_chain(o.keys, w, s);
    lemma_cycle_unique(o.keys, s, path);
    assert forall|i: int| #[trigger] non(s, i) <==> kv(a, i) == Some(w) by {
        if non(s, i) {
            let k = choose|k: int| 0 <= k < s.len() && nidx(#[trigger] s[k]) == i;
            assert(pos(s, k).ival() == i);
        }
    }
    assert forall|i: int| #![trigger kv(b, i)] kv(b, i) == (if kv(a, i) == Some(w) { None } else { kv(a, i) }) by {
        assert(ent(b, i) == entx(b, i)); assert(non(s, i) == non(s, i));
    }
    assert forall|i: int| #![trigger kk(b, i)] kk(b, i) == (if kv(a, i) == Some(w) { None } else { kk(a, i) }) by {
        assert(ent(b, i) == entx(b, i)); assert(non(s, i) == non(s, i));
    }
    assert forall|i: int| #![trigger kv(b, i)] #![trigger ent(b, i)] match kv(b, i) { Some(v) => ent(y, v) is Some, None => true } by {
        if kv(b, i) is Some {
            let v = kv(b, i).unwrap();
            assert(kv(a, i) == Some(v));
            assert(ent(x, v) is Some);
            assert(ent(y, v) == ent(x, v));
        }
    }
    assert forall|v: int| #![trigger ent(y, v)] match ent(y, v) { Some((_, z)) => set_ok(b, v, z.key_count@ as int), None => true } by {
        if v != w && ent(y, v) is Some {
            assert(ent(y, v) == ent(x, v));
            let t = choose|t: Seq<P::Inx>| #[trigger] set_of(a, v, t) && t.len() == ent(x, v).unwrap().1.key_count@;
            assert forall|c: P::Inx| #![trigger knx(b, c)] kv(a, c.ival()) == Some(v) implies knx(b, c) == knx(a, c) by {
                assert(non(s, c.ival()) == non(s, c.ival()));
                assert(ent(b, c.ival()) == entx(b, c.ival()));
            }
            lemma_set_frame(a, b, v, v, t);
        }
    }
    assert forall|u: int| u != w implies #[trigger] n.value(u) == o.value(u) by { assert(ent(y, u) == ent(x, u)); }
}

/// only generations changed
pub proof fn lemma_invalidated<P: Ptr, K, V>(o: SurjectArena<P, K, V>, n: SurjectArena<P, K, V>, p: P, r: Option<P>)
    requires o.wf(), n.keys.wf(), n.vals == o.vals,
        match r {
            Some(q) => o.has(p) && q.sinx() == p.sinx() && ({
                    let l = o.keys.a.val(p);
                    &&& n.keys.a.at(idx(p)) == nlset(Some((q.sgen(), l)), nis_at(l.prev_next.1, idx(p)), Some(q.sinx()), nis_at(l.prev_next.0, idx(p)), Some(q.sinx()))
                    &&& forall|j: int| #![trigger ent(n.keys.a.m@, j)] j != idx(p) ==> ent(n.keys.a.m@, j)
                        == nlset(ent(o.keys.a.m@, j), nis_at(l.prev_next.1, j), Some(q.sinx()), nis_at(l.prev_next.0, j), Some(q.sinx()))
                }),
            None => n.keys.a.same(o.keys.a),
        },
    ensures n.wf(), r is None ==> n.same(o),
        r is Some ==> n.keys_except(o, idx(p)) && n.has(r.unwrap()) && n.key(r.unwrap()) == o.key(p) && n.vi(r.unwrap()) == o.vi(p),
{
    if r is None {
        lemma_surj_same(o, n);
    } else {
        let (a, b) = (o.keys.a.m@, n.keys.a.m@);
        lemma_nnb(o.keys, p.sinx());
        assert forall|i: int| #![trigger kv(b, i)] kv(b, i) == kv(a, i) by {
            assert(ent(b, i) == entx(b, i));
        }
        assert forall|i: int| #![trigger kk(b, i)] i != idx(p) implies kk(b, i) == kk(a, i) by {
            assert(ent(b, i) == entx(b, i));
        }
        assert forall|c: P::Inx| #![trigger knx(b, c)] knx(b, c) == knx(a, c) by {
            assert(ent(b, c.ival()) == entx(b, c.ival()));
            let l = o.keys.a.val(p);
            if nis_at(l.prev_next.0, c.ival()) { assert(l.prev_next.0 == Some(c)); }
        }
        assert forall|v: int| #![trigger ent(n.vals.m@, v)] match ent(n.vals.m@, v) { Some((_, x)) => set_ok(b, v, x.key_count@ as int), None => true } by {
            if ent(n.vals.m@, v) is Some {
                let s = choose|s: Seq<P::Inx>| #[trigger] set_of(a, v, s) && s.len() == ent(o.vals.m@, v).unwrap().1.key_count@;
                lemma_set_frame(a, b, v, v, s);
            }
        }
    }
}
/// the keys of `s` were given the value `pv`
pub open spec fn relinked<P: Ptr, K>(a: Seq<KeyEnt<P, K>>, b: Seq<KeyEnt<P, K>>, s: Seq<P::Inx>, pv: PtrNoGen<P>) -> bool {
    forall|i: int| #![trigger ent(b, i)] ent(b, i) == match ent(a, i) {
        Some((g, l)) => Some((g, if non(s, i) { LinkNoGen { prev_next: l.prev_next, t: Key { k: l.t.k, p_val: pv } } } else { l })),
        None => None,
    }
}

pub proof fn lemma_relinked_push<P: Ptr, K>(a: Seq<KeyEnt<P, K>>, b: Seq<KeyEnt<P, K>>, c: Seq<KeyEnt<P, K>>, s: Seq<P::Inx>, k: int, pv: PtrNoGen<P>)
    requires 0 <= k < s.len(), relinked(a, b, s.take(k), pv), ent(a, s[k].ival()) is Some,
        forall|i: int| #![trigger ent(c, i)] i != s[k].ival() ==> ent(c, i) == ent(b, i),
        ent(c, s[k].ival()) == (match ent(b, s[k].ival()) {
            Some((g, l)) => Some((g, LinkNoGen { prev_next: l.prev_next, t: Key { k: l.t.k, p_val: pv } })),
            None => None,
        }),
    ensures relinked(a, c, s.take(k + 1), pv),
{
    let (t, u) = (s.take(k), s.take(k + 1));
    assert forall|i: int| #[trigger] non(u, i) <==> non(t, i) || i == s[k].ival() by {
        if non(t, i) {
            let j = choose|j: int| 0 <= j < t.len() && nidx(#[trigger] t[j]) == i;
            assert(u[j] == t[j]);
        }
        if i == s[k].ival() { assert(u[k] == s[k]); }
        if non(u, i) && i != s[k].ival() {
            let j = choose|j: int| 0 <= j < u.len() && nidx(#[trigger] u[j]) == i;
            assert(u[j] == t[j]);
        }
    }
    assert forall|i: int| #![trigger ent(c, i)] ent(c, i) == match ent(a, i) {
        Some((g, l)) => Some((g, if non(u, i) { LinkNoGen { prev_next: l.prev_next, t: Key { k: l.t.k, p_val: pv } } } else { l })),
        None => None,
    } by {
        assert(ent(b, i) == entx(b, i));
    }
}

/// the keys with value `w` now have value `v` as well
pub open spec fn kv_merged<P: Ptr, K>(a: Seq<KeyEnt<P, K>>, b: Seq<KeyEnt<P, K>>, v: int, w: int) -> bool {
    forall|i: int| #![trigger kv(b, i)] kv(b, i) == (if kv(a, i) == Some(w) { Some(v) } else { kv(a, i) })
}

/// two groups became one
pub proof fn lemma_united<P: Ptr, K, V>(o: SurjectArena<P, K, V>, m: ChainNoGenArena<P, Key<P, K>>, n: SurjectArena<P, K, V>, p: P, q: P, s: Seq<P::Inx>, pv: PtrNoGen<P>)
    requires o.wf(), m.wf(), n.keys.wf(), n.vals.wf(), o.has(p), o.has(q), o.vi(p) != o.vi(q),
        pv._internal_inx.ival() == o.vi(p),
        set_of(o.keys.a.m@, o.vi(q), s), relinked(o.keys.a.m@, m.a.m@, s, pv),
        forall|j: int| #![trigger ent(n.keys.a.m@, j)] ent(n.keys.a.m@, j)
            == nlset(ent(m.a.m@, j),
                nis_at(m.nx(p.sinx()), j) || nis_at(m.nx(q.sinx()), j),
                Some(if nis_at(m.nx(q.sinx()), j) { p.sinx() } else { q.sinx() }),
                j == idx(p) || j == idx(q),
                if j == idx(q) { m.nx(p.sinx()) } else { m.nx(q.sinx()) }),
        n.vals.same_except2(o.vals, o.vi(p), o.vi(q)), n.vals.at(o.vi(q)) is None,
        n.vals.at(o.vi(p)) is Some,
        n.vals.at(o.vi(p)).unwrap().1.v == o.vals.at(o.vi(p)).unwrap().1.v,
        n.vals.at(o.vi(p)).unwrap().1.key_count@ == o.vals.at(o.vi(p)).unwrap().1.key_count@ + o.vals.at(o.vi(q)).unwrap().1.key_count@,
    ensures n.wf(), kv_merged(o.keys.a.m@, n.keys.a.m@, o.vi(p), o.vi(q)),
        forall|i: int| #![trigger kk(n.keys.a.m@, i)] kk(n.keys.a.m@, i) == kk(o.keys.a.m@, i),
        n.vals_except(o, o.vi(q)), n.value(o.vi(q)) is None,
{
    let (a, b, c) = (o.keys.a.m@, n.keys.a.m@, m.a.m@);
    let (x, y) = (o.vals.m@, n.vals.m@);
    let (v, w) = (o.vi(p), o.vi(q));
    assert(kv(a, idx(p)) == Some(v));
    assert(kv(a, idx(q)) == Some(w));
    let s0 = lemma_set(o, p);
    let s1 = lemma_set(o, q);
    let t0 = lemma_rotate_last(a, v, s0, p.sinx());
    let t1 = lemma_rotate_last(a, w, s1, q.sinx());
    assert forall|i: int| #[trigger] non(s, i) <==> kv(a, i) == Some(w) by {
        if non(s, i) {
            let k = choose|k: int| 0 <= k < s.len() && nidx(#[trigger] s[k]) == i;
            assert(pos(s, k).ival() == i);
        }
    }
    assert forall|i: int| #![trigger kv(b, i)] kv(b, i) == (if kv(a, i) == Some(w) { Some(v) } else { kv(a, i) }) by {
        assert(ent(b, i) == entx(b, i)); assert(ent(c, i) == entx(c, i)); assert(non(s, i) == non(s, i));
    }
    assert forall|i: int| #![trigger kk(b, i)] kk(b, i) == kk(a, i) by {
        assert(ent(b, i) == entx(b, i)); assert(ent(c, i) == entx(c, i)); assert(non(s, i) == non(s, i));
    }
    assert(ent(c, idx(p)) == entx(c, idx(p)));
    assert(ent(c, idx(q)) == entx(c, idx(q)));
    assert forall|z: P::Inx| #![trigger knx(b, z)] knx(b, z) == (if z == q.sinx() { knx(a, p.sinx()) } else if z == p.sinx() { knx(a, q.sinx()) } else { knx(a, z) }) by {
        assert(ent(b, z.ival()) == entx(b, z.ival())); assert(ent(c, z.ival()) == entx(c, z.ival()));
    }
    assert forall|i: int| #![trigger kv(b, i)] #![trigger ent(b, i)] match kv(b, i) { Some(u) => ent(y, u) is Some, None => true } by {
        if kv(b, i) is Some {
            assert(ent(x, kv(a, i).unwrap()) is Some);
            assert(ent(y, kv(b, i).unwrap()) == entx(y, kv(b, i).unwrap()));
        }
    }
    assert forall|u: int| #![trigger ent(y, u)] match ent(y, u) { Some((_, z)) => set_ok(b, u, z.key_count@ as int), None => true } by {
        if u == v {
            let t = t0 + t1;
            let n0 = t0.len() as int;
            assert(pos(t0, n0 - 1) == p.sinx());
            assert(pos(t1, t1.len() - 1) == q.sinx());
            assert forall|k: int| 0 <= k < t.len() implies (#[trigger] pos(t, k)) == (if k < n0 { pos(t0, k) } else { pos(t1, k - n0) }) by {}
            assert forall|k: int| 0 <= k < t.len() implies kv(b, (#[trigger] pos(t, k)).ival()) == Some(v) && knx(b, pos(t, k)) == Some(cyc(t, k)) by {
                if k < n0 {
                    if k < n0 - 1 { assert(pos(t0, k).ival() != pos(t0, n0 - 1).ival()); }
                    assert(kv(a, pos(t0, k).ival()) == Some(v));
                } else {
                    if k < t.len() - 1 { assert(pos(t1, k - n0).ival() != pos(t1, t1.len() - 1).ival()); }
                    assert(kv(a, pos(t1, k - n0).ival()) == Some(w));
                }
            }
            assert forall|j: int, k: int| #![trigger pos(t, j), pos(t, k)] 0 <= j < k < t.len() implies pos(t, j).ival() != pos(t, k).ival() by {
                if k >= n0 { assert(kv(a, pos(t1, k - n0).ival()) == Some(w)); }
                if j < n0 { assert(kv(a, pos(t0, j).ival()) == Some(v)); }
            }
            assert forall|i: int| #![trigger kv(b, i)] kv(b, i) == Some(v) implies non(t, i) by {
                if kv(a, i) == Some(v) {
                    let k = choose|k: int| 0 <= k < t0.len() && nidx(#[trigger] t0[k]) == i;
                    assert(t[k] == t0[k]);
                } else {
                    assert(kv(a, i) == Some(w));
                    let k = choose|k: int| 0 <= k < t1.len() && nidx(#[trigger] t1[k]) == i;
                    assert(t[n0 + k] == t1[k]);
                }
            }
            assert(set_of(b, v, t));
        } else if u != w && ent(y, u) is Some {
            assert(ent(y, u) == ent(x, u));
            let r = choose|r: Seq<P::Inx>| #[trigger] set_of(a, u, r) && r.len() == ent(x, u).unwrap().1.key_count@;
            lemma_set_frame(a, b, u, u, r);
        }
    }
    assert forall|u: int| u != w implies #[trigger] n.value(u) == o.value(u) by { if u != v { assert(ent(y, u) == ent(x, u)); } }
}

/// two groups together are not larger than the arena
pub proof fn lemma_two_sets<P: Ptr, K, V>(o: SurjectArena<P, K, V>, p: P, q: P)
    requires o.wf(), o.has(p), o.has(q), o.vi(p) != o.vi(q),
    ensures o.vals.at(o.vi(p)).unwrap().1.key_count@ + o.vals.at(o.vi(q)).unwrap().1.key_count@ <= o.keys.a.len,
{
    let a = o.keys.a.m@;
    let s0 = lemma_set(o, p);
    let s1 = lemma_set(o, q);
    let t = s0 + s1;
    let n0 = s0.len() as int;
    assert forall|k: int| 0 <= k < t.len() implies (#[trigger] pos(t, k)) == (if k < n0 { pos(s0, k) } else { pos(s1, k - n0) }) by {}
    assert forall|j: int, k: int| #![trigger pos(t, j), pos(t, k)] 0 <= j < k < t.len() implies pos(t, j).ival() != pos(t, k).ival() by {
        if k >= n0 { assert(kv(a, pos(s1, k - n0).ival()) == Some(o.vi(q))); }
        if j < n0 { assert(kv(a, pos(s0, j).ival()) == Some(o.vi(p))); }
    }
    lemma_live_len(a, t);
}
@@module surject_arena surject/surject_arena.rs
@@text
broadcast use {ptr_axioms, ax_vec_len, ax_vec_cap, arena_lemmas, lemma_surj_keep};
@@fn SurjectArena::new props=S01,A04
    ensures r.wf(), r.keys.a.len == 0, r.vals.len == 0, r.keys.a.gen() == 2, r.keys.a.cap() == 0, r.vals.cap() == 0,
        r.keys.a.none_left(), r.vals.none_left(),
@@fn SurjectArena::len_keys props=S02
    ensures r == self.keys.a.len,
@@fn SurjectArena::len_vals props=S02
    ensures r == self.vals.len,
@@fn SurjectArena::len_key_set props=S01,S02
    requires self.wf(),
    ensures match r {
            Some(n) => self.has(p) && exists|s: Seq<P::Inx>| #[trigger] set_of(self.keys.a.m@, self.vi(p), s) && s.len() == n@,
            None => !self.has(p),
        },
@end
    proof { lemma_set(*self, p); }
@@fn SurjectArena::is_empty props=S02
    requires self.wf(),
    ensures r == (self.vals.len == 0), r == (self.keys.a.len == 0),
@start
    proof { lemma_counts(*self); }
@@fn SurjectArena::capacity_keys props=A03
    ensures r == self.keys.a.cap(),
@@fn SurjectArena::capacity_vals props=A03
    ensures r == self.vals.cap(),
@@fn SurjectArena::generation props=A04
    ensures r == self.keys.a.generation,
@@fn SurjectArena::contains props=S01
    requires self.keys.a.m.wf(),
    ensures r == self.has(p),
@@fn SurjectArena::in_same_set props=S01
    requires self.keys.a.m.wf(),
    ensures match r {
            Some(b) => self.has(p0) && self.has(p1) && b == (self.vi(p0) == self.vi(p1)),
            None => !self.has(p0) || !self.has(p1),
        },
@@fn SurjectArena::get_key props=S01
    requires self.keys.a.m.wf(),
    ensures match r { Some(k) => self.has(p) && *k == self.key(p), None => !self.has(p) },
@@fn SurjectArena::get_val props=S01
    requires self.wf(),
    ensures match r { Some(v) => self.has(p) && *v == self.val(p), None => !self.has(p) },
@@fn SurjectArena::get props=S01
    requires self.wf(),
    ensures match r { Some((k, v)) => self.has(p) && *k == self.key(p) && *v == self.val(p), None => !self.has(p) },
@@fn SurjectArena::reserve_keys props=A03,S01
    requires old(self).wf(), old(self).keys.a.cap() + additional <= <P::Inx as PtrInx>::maxi(),
    ensures final(self).wf(), final(self).same(*old(self)), final(self).vals == old(self).vals,
        final(self).keys.a.generation == old(self).keys.a.generation,
        final(self).keys.a.cap() == old(self).keys.a.cap() + additional,
@end
    proof { lemma_surj_same(*old(self), *self); }
@@fn SurjectArena::reserve_vals props=A03,S01
    requires old(self).wf(), old(self).vals.cap() + additional <= <P::Inx as PtrInx>::maxi(),
    ensures final(self).wf(), final(self).same(*old(self)), final(self).keys == old(self).keys,
        final(self).vals.cap() == old(self).vals.cap() + additional,
@end
    proof { lemma_surj_same(*old(self), *self); }
@@fn SurjectArena::with_capacity props=A03,S01
    requires capacity_keys <= <P::Inx as PtrInx>::maxi(), capacity_vals <= <P::Inx as PtrInx>::maxi(),
    ensures r.wf(), r.keys.a.len == 0, r.vals.len == 0, r.keys.a.gen() == 2,
        r.keys.a.cap() == capacity_keys, r.vals.cap() == capacity_vals,
        forall|i: int| #[trigger] kk(r.keys.a.m@, i) is None,
@@fn SurjectArena::insert props=S01,S02,A01,A03,A04
    requires old(self).wf(), old(self).keys.a.len < <P::Inx as PtrInx>::maxi(),
    ensures final(self).wf(), final(self).keys.a.generation == old(self).keys.a.generation,
        final(self).keys.keep_cap(old(self).keys), final(self).vals.cap() >= old(self).vals.cap(),
        old(self).vals.len < old(self).vals.cap() ==> final(self).vals.cap() == old(self).vals.cap(),
        kk(old(self).keys.a.m@, idx(r)) is None, final(self).has(r), r.sgen() == old(self).keys.a.generation,
        final(self).key(r) == k, final(self).keys_except(*old(self), idx(r)),
        old(self).value(final(self).vi(r)) is None, final(self).value(final(self).vi(r)) == Some(v),
        final(self).vals_except(*old(self), final(self).vi(r)),
        final(self).keys.a.len == old(self).keys.a.len + 1, final(self).vals.len == old(self).vals.len + 1,
@start
    proof { lemma_counts(*old(self)); }
@end
    proof { lemma_inserted(*old(self), *self, __r); }
@@fn SurjectArena::insert_with beta props=S01,S02,A01,A03,A04
    requires old(self).wf(), old(self).keys.a.len < <P::Inx as PtrInx>::maxi(), forall|p: P| create_k_v.requires((p,)),
    ensures final(self).wf(), final(self).keys.a.generation == old(self).keys.a.generation,
        final(self).keys.keep_cap(old(self).keys), final(self).vals.cap() >= old(self).vals.cap(),
        old(self).vals.len < old(self).vals.cap() ==> final(self).vals.cap() == old(self).vals.cap(),
        kk(old(self).keys.a.m@, idx(r)) is None, final(self).has(r), r.sgen() == old(self).keys.a.generation,
        final(self).keys_except(*old(self), idx(r)),
        old(self).value(final(self).vi(r)) is None,
        final(self).value(final(self).vi(r)) matches Some(v) && create_k_v.ensures((r,), (final(self).key(r), v)),
        final(self).vals_except(*old(self), final(self).vi(r)),
        final(self).keys.a.len == old(self).keys.a.len + 1, final(self).vals.len == old(self).vals.len + 1,
@start
    proof { lemma_counts(*old(self)); }
@end
    proof { lemma_inserted(*old(self), *self, __r); }
@@fn SurjectArena::insert_key index props=S01,S02,A01,A03,A04
    requires old(self).wf(), old(self).keys.a.len < <P::Inx as PtrInx>::maxi(),
    ensures final(self).wf(), final(self).keys.a.generation == old(self).keys.a.generation,
        final(self).keys.keep_cap(old(self).keys), final(self).vals.cap() == old(self).vals.cap(),
        final(self).same_vals(*old(self)),
        match r {
            Ok(q) => old(self).has(p) && kk(old(self).keys.a.m@, idx(q)) is None && final(self).has(q) && q.sgen() == old(self).keys.a.generation
                && final(self).key(q) == k && final(self).vi(q) == old(self).vi(p) && final(self).keys_except(*old(self), idx(q))
                && final(self).keys.a.len == old(self).keys.a.len + 1,
            Err(u) => !old(self).has(p) && u == k && *final(self) == *old(self),
        },
@pre wrapping_add 0
    proof { lemma_set(*old(self), p); }
@at insert 0
    proof { if __tail is Ok { lemma_key_inserted(*old(self), *self, p, __tail->Ok_0); } }
@@fn SurjectArena::insert_key_with index props=S01,S02,A01,A03,A04
    requires old(self).wf(), old(self).keys.a.len < <P::Inx as PtrInx>::maxi(), forall|q: P| create_k.requires((q,)),
    ensures final(self).wf(), final(self).keys.a.generation == old(self).keys.a.generation,
        final(self).keys.keep_cap(old(self).keys), final(self).vals.cap() == old(self).vals.cap(),
        final(self).same_vals(*old(self)),
        match r {
            Some(q) => old(self).has(p) && kk(old(self).keys.a.m@, idx(q)) is None && final(self).has(q) && q.sgen() == old(self).keys.a.generation
                && create_k.ensures((q,), final(self).key(q)) && final(self).vi(q) == old(self).vi(p) && final(self).keys_except(*old(self), idx(q))
                && final(self).keys.a.len == old(self).keys.a.len + 1,
            None => !old(self).has(p) && *final(self) == *old(self),
        },
@pre wrapping_add 0
    proof { lemma_set(*old(self), p); }
@closure 0
    -> (l: Key<P, K>) ensures l.p_val == p_val, create_k.ensures(($0,), l.k)
@at insert_with 0
    proof { if __tail is Some { lemma_key_inserted(*old(self), *self, p, __tail.unwrap()); } }
@@fn SurjectArena::get_key_mut props=S01
    requires old(self).wf(),
    ensures match r {
            Some(k) => old(self).has(p) && *k == old(self).key(p) && final(self).has(p) && final(self).key(p) == *final(k)
                && final(self).vi(p) == old(self).vi(p) && final(self).keys_except(*old(self), idx(p)) && final(self).wf(),
            None => !old(self).has(p) && final(self).same(*old(self)),
        },
        final(self).same_vals(*old(self)), final(self).keep(*old(self)),
@@fn SurjectArena::get_val_mut props=S01
    requires old(self).wf(),
    ensures match r {
            Some(v) => old(self).has(p) && *v == old(self).val(p) && final(self).value(old(self).vi(p)) == Some(*final(v))
                && final(self).vals_except(*old(self), old(self).vi(p)),
            None => !old(self).has(p) && final(self).same_vals(*old(self)),
        },
        final(self).wf(), final(self).same_keys(*old(self)), final(self).vals.len == old(self).vals.len, final(self).keep(*old(self)),
@@fn SurjectArena::remove_key props=S01,S02,A01,A04
    requires old(self).wf(),
    ensures final(self).wf(), final(self).keys.a.cap() == old(self).keys.a.cap(), final(self).vals.cap() == old(self).vals.cap(),
        match r {
            Some((k, ov)) => old(self).has(p) && k == old(self).key(p) && kk(final(self).keys.a.m@, idx(p)) is None
                && final(self).keys_except(*old(self), idx(p)) && final(self).keys.keep_inc(old(self).keys, 1)
                && (<P::Gen as PtrGen>::counted() ==> final(self).keys.a.dead(p)) && final(self).keys.a.step(old(self).keys.a)
                && final(self).vals_except(*old(self), old(self).vi(p))
                && match ov {
                    // the last key of its group
                    Some(v) => v == old(self).val(p) && final(self).value(old(self).vi(p)) is None && final(self).vals.len == old(self).vals.len - 1
                        && forall|i: int| #![trigger kv(old(self).keys.a.m@, i)] kv(old(self).keys.a.m@, i) == Some(old(self).vi(p)) ==> i == idx(p),
                    None => final(self).value(old(self).vi(p)) == Some(old(self).val(p)) && final(self).vals.len == old(self).vals.len
                        && exists|i: int| #![trigger kv(old(self).keys.a.m@, i)] kv(old(self).keys.a.m@, i) == Some(old(self).vi(p)) && i != idx(p),
                },
            None => !old(self).has(p) && final(self).same(*old(self)),
        },
@pre get_inx_unwrap 0
    let ghost s = lemma_set(*old(self), p);
    let ghost k1 = self.keys;
    proof { lemma_key_removed(old(self).keys, self.keys, p, old(self).vi(p), s); }
@end
    proof { lemma_removed(*old(self), *self, p, s); }
@@fn SurjectArena::remove props=S01,S02,A01,A04
    requires old(self).wf(),
    ensures final(self).wf(), final(self).keys.a.cap() == old(self).keys.a.cap(), final(self).vals.cap() == old(self).vals.cap(),
        match r {
            Some(v) => old(self).has(p) && v == old(self).val(p) && final(self).value(old(self).vi(p)) is None
                && final(self).vals_except(*old(self), old(self).vi(p)) && final(self).vals.len == old(self).vals.len - 1
                && final(self).keys.a.gen() == old(self).keys.a.gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int })
                && final(self).keys_without(*old(self), old(self).vi(p))
                && (exists|s: Seq<P::Inx>| #[trigger] set_of(old(self).keys.a.m@, old(self).vi(p), s) && final(self).keys.a.len == old(self).keys.a.len - s.len()),
            None => !old(self).has(p) && final(self).same(*old(self)),
        },
@pre remove_cyclic_chain_internal 0
    let ghost s = lemma_set(*old(self), p);
    proof { lemma_set_chain(old(self).keys, old(self).vi(p), s); }
@end
    proof { lemma_set_removed(*old(self), *self, p, s); }
@@fn SurjectArena::invalidate props=S01,A01,A04
    requires old(self).wf(),
    ensures final(self).wf(), final(self).vals == old(self).vals, final(self).keys.a.cap() == old(self).keys.a.cap(), final(self).keys.a.len == old(self).keys.a.len,
        match r {
            Some(q) => old(self).has(p) && q.sinx() == p.sinx() && final(self).has(q) && final(self).key(q) == old(self).key(p) && final(self).vi(q) == old(self).vi(p)
                && final(self).keys_except(*old(self), idx(p)) && (<P::Gen as PtrGen>::counted() ==> final(self).keys.a.dead(p))
                && final(self).keys.a.step(old(self).keys.a)
                && final(self).keys.a.gen() == old(self).keys.a.gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int }),
            None => !old(self).has(p) && final(self).same(*old(self)),
        },
@end
    proof { lemma_invalidated(*old(self), *self, p, __r); }
@@fn SurjectArena::clear props=S02,A04,A05
    requires old(self).wf(),
    ensures final(self).wf(), final(self).keys.a.none_left(), final(self).vals.none_left(), final(self).keys.a.len == 0, final(self).vals.len == 0,
        final(self).keys.a.cap() == old(self).keys.a.cap(), final(self).vals.cap() == old(self).vals.cap(),
        final(self).keys.a.gen() == old(self).keys.a.gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int }),
@@fn SurjectArena::clear_and_shrink props=S02,A04,A05
    requires old(self).wf(),
    ensures final(self).wf(), final(self).keys.a.none_left(), final(self).vals.none_left(), final(self).keys.a.len == 0, final(self).vals.len == 0,
        final(self).keys.a.cap() == 0, final(self).vals.cap() == 0,
        final(self).keys.a.gen() == old(self).keys.a.gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int }),
@@fn SurjectArena::get_mut props=S01
    requires old(self).wf(),
    ensures match r {
            Some((k, v)) => old(self).has(p) && *k == old(self).key(p) && *v == old(self).val(p)
                && final(self).has(p) && final(self).key(p) == *final(k) && final(self).vi(p) == old(self).vi(p)
                && final(self).keys_except(*old(self), idx(p))
                && final(self).value(old(self).vi(p)) == Some(*final(v)) && final(self).vals_except(*old(self), old(self).vi(p)),
            None => !old(self).has(p) && final(self).same(*old(self)),
        },
        final(self).wf(), final(self).keep(*old(self)), final(self).keys.a.len == old(self).keys.a.len, final(self).vals.len == old(self).vals.len,
@@fn SurjectArena::get2_key_mut props=S01
    requires old(self).wf(),
    ensures match r {
            Some((k0, k1)) => old(self).has(p0) && old(self).has(p1) && p0 != p1 && *k0 == old(self).key(p0) && *k1 == old(self).key(p1)
                && final(self).has(p0) && final(self).has(p1) && final(self).key(p0) == *final(k0) && final(self).key(p1) == *final(k1)
                && final(self).vi(p0) == old(self).vi(p0) && final(self).vi(p1) == old(self).vi(p1)
                && final(self).keys_except2(*old(self), idx(p0), idx(p1)),
            None => (p0 == p1 || !old(self).has(p0) || !old(self).has(p1)) && final(self).same(*old(self)),
        },
        final(self).wf(), final(self).same_vals(*old(self)), final(self).keep(*old(self)), final(self).keys.a.len == old(self).keys.a.len,
@@fn SurjectArena::get2_val_mut props=S01
    requires old(self).wf(),
    ensures match r {
            Some((v0, v1)) => old(self).has(p0) && old(self).has(p1) && old(self).vi(p0) != old(self).vi(p1)
                && *v0 == old(self).val(p0) && *v1 == old(self).val(p1)
                && final(self).value(old(self).vi(p0)) == Some(*final(v0)) && final(self).value(old(self).vi(p1)) == Some(*final(v1))
                && final(self).vals_except2(*old(self), old(self).vi(p0), old(self).vi(p1)),
            None => (!old(self).has(p0) || !old(self).has(p1) || old(self).vi(p0) == old(self).vi(p1)) && final(self).same(*old(self)),
        },
        final(self).wf(), final(self).same_keys(*old(self)), final(self).keep(*old(self)), final(self).vals.len == old(self).vals.len,
@@fn SurjectArena::get2_mut props=S01
    requires old(self).wf(),
    ensures match r {
            Some(((k0, v0), (k1, v1))) => old(self).has(p0) && old(self).has(p1) && old(self).vi(p0) != old(self).vi(p1)
                && *k0 == old(self).key(p0) && *k1 == old(self).key(p1) && *v0 == old(self).val(p0) && *v1 == old(self).val(p1)
                && final(self).has(p0) && final(self).has(p1) && final(self).key(p0) == *final(k0) && final(self).key(p1) == *final(k1)
                && final(self).vi(p0) == old(self).vi(p0) && final(self).vi(p1) == old(self).vi(p1)
                && final(self).keys_except2(*old(self), idx(p0), idx(p1))
                && final(self).value(old(self).vi(p0)) == Some(*final(v0)) && final(self).value(old(self).vi(p1)) == Some(*final(v1))
                && final(self).vals_except2(*old(self), old(self).vi(p0), old(self).vi(p1)),
            None => (!old(self).has(p0) || !old(self).has(p1) || old(self).vi(p0) == old(self).vi(p1)) && final(self).same(*old(self)),
        },
        final(self).wf(), final(self).keep(*old(self)), final(self).keys.a.len == old(self).keys.a.len, final(self).vals.len == old(self).vals.len,
@@fn SurjectArena::get_link_no_gen props=S01,A01
    requires self.keys.a.m.wf(),
    ensures match r {
            Some((g, l)) => kk(self.keys.a.m@, p.ival()) == Some((g, *l.t)) && l.prev_next == self.keys.a.at(p.ival()).unwrap().1.prev_next,
            None => kk(self.keys.a.m@, p.ival()) is None,
        },
@@fn SurjectArena::swap_keys props=S01
    requires old(self).wf(),
    ensures match r {
            Some(_) => old(self).has(p0) && old(self).has(p1) && final(self).has(p0) && final(self).has(p1)
                && final(self).key(p0) == old(self).key(p1) && final(self).key(p1) == old(self).key(p0)
                && final(self).vi(p0) == old(self).vi(p0) && final(self).vi(p1) == old(self).vi(p1)
                && final(self).keys_except2(*old(self), idx(p0), idx(p1)),
            None => (!old(self).has(p0) || !old(self).has(p1)) && final(self).same(*old(self)),
        },
        final(self).wf(), final(self).same_vals(*old(self)), final(self).keep(*old(self)), final(self).keys.a.len == old(self).keys.a.len,
@@fn SurjectArena::swap_vals props=S01
    requires old(self).wf(),
    ensures match r {
            Some(_) => old(self).has(p0) && old(self).has(p1)
                && final(self).value(old(self).vi(p0)) == Some(old(self).val(p1)) && final(self).value(old(self).vi(p1)) == Some(old(self).val(p0))
                && final(self).vals_except2(*old(self), old(self).vi(p0), old(self).vi(p1)),
            None => (!old(self).has(p0) || !old(self).has(p1)) && final(self).same(*old(self)),
        },
        final(self).wf(), final(self).same_keys(*old(self)), final(self).keep(*old(self)), final(self).vals.len == old(self).vals.len,
@@fn SurjectArena::union props=S01,S02
@attr #[verifier::spinoff_prover]
    requires old(self).wf(),
    ensures final(self).wf(), final(self).keep(*old(self)), final(self).keys.a.len == old(self).keys.a.len,
        match r {
            Some((v, q)) => old(self).has(p0) && old(self).has(p1) && old(self).vi(p0) != old(self).vi(p1) && ({
                let less = old(self).count(old(self).vi(p0)) < old(self).count(old(self).vi(p1));
                let (a, b) = if less { (p1, p0) } else { (p0, p1) };
                &&& q == a && v == old(self).val(b)
                &&& kv_merged(old(self).keys.a.m@, final(self).keys.a.m@, old(self).vi(a), old(self).vi(b))
                &&& forall|i: int| #![trigger kk(final(self).keys.a.m@, i)] kk(final(self).keys.a.m@, i) == kk(old(self).keys.a.m@, i)
                &&& final(self).vals_except(*old(self), old(self).vi(b)) && final(self).value(old(self).vi(b)) is None
                &&& final(self).vals.len == old(self).vals.len - 1
            }),
            None => (!old(self).has(p0) || !old(self).has(p1) || old(self).vi(p0) == old(self).vi(p1)) && *final(self) == *old(self),
        },
@pre get_inx_unwrap 0
    proof { lemma_two_sets(*self, p0, p1); }
@before 0
    let ghost s = lemma_set(*self, p1);
    let ghost mut k = 0int;
    let ghost a = self.keys.a.m@;
    proof {
        assert forall|i: int| #[trigger] non(s.take(0), i) == false by {}
    }
@loop 0
    invariant_except_break
        0 <= k < s.len(), tmp == s[k],
    invariant
        *old(self) == o, o.wf(), a == o.keys.a.m@, o.has(p1), o.has(p0), set_of(a, o.vi(p1), s), s[0] == p1.sinx(),
        relinked(a, self.keys.a.m@, s.take(k), p_val0), self.keys.wf(), self.keys.keep(o.keys), self.vals == o.vals,
    ensures relinked(a, self.keys.a.m@, s, p_val0),
    decreases s.len() - k,
@body 0
    let ghost m0 = self.keys.a.m@;
    proof {
        assert(pos(s, k) == s[k]);
        assert(kv(a, s[k].ival()) == Some(o.vi(p1)));
        assert(ent(m0, s[k].ival()) is Some);
        assert(knx(a, pos(s, k)) == Some(cyc(s, k)));
    }
@at get_inx_mut_unwrap_t 0
    proof {
        lemma_relinked_push(a, m0, self.keys.a.m@, s, k, p_val0);
        assert(ent(self.keys.a.m@, s[k].ival()) is Some);
        k = k + 1;
        if k == s.len() { assert(s.take(k) =~= s); } else {
            assert(pos(s, 0).ival() != pos(s, k).ival());
        }
    }
@pre exchange_next 0
    let ghost m = self.keys;
    proof {
        assert(kv(a, idx(p1)) == Some(o.vi(p1)));
        assert(kv(a, idx(p0)) == Some(o.vi(p0)));
        assert(ent(m.a.m@, idx(p0)) is Some);
        assert(ent(m.a.m@, idx(p1)) is Some);
        let s0 = lemma_set(o, p0);
        assert(pos(s0, 0) == p0.sinx());
        assert(pos(s, 0) == p1.sinx());
        assert(knx(a, p0.sinx()) is Some);
        assert(knx(a, p1.sinx()) is Some);
    }
@start
    let ghost o = *old(self);
@end
    proof { lemma_united(o, m, *self, p0, p1, s, p_val0); }
@@end
@@module surject_clone !core
@@text
broadcast use {ptr_axioms, ax_vec_len, ax_vec_cap, arena_lemmas};
@@impl Key as Clone props=S03
@in clone contract
    ensures r.p_val == self.p_val, cloned(self.k, r.k)
@@impl Val as Clone props=S03
@in clone contract
    ensures r.key_count == self.key_count, cloned(self.v, r.v)
@@module surject_copies surject/surject_arena.rs
@@text
use crate::chain_no_gen_arena::*;
@@text props=S03
broadcast use {ptr_axioms, ax_vec_len, ax_vec_cap, arena_lemmas};
/// the same pointers, in the same chains, with the same values
pub open spec fn kents_eq<P: Ptr, K, L>(a: Seq<KeyEnt<P, K>>, b: Seq<KeyEnt<P, L>>, i: int) -> bool {
    match (ent(a, i), ent(b, i)) {
        (None, None) => true,
        (Some((g, l)), Some((h, k))) => g == h && l.prev_next == k.prev_next && l.t.p_val == k.t.p_val,
        _ => false,
    }
}

pub open spec fn vents_eq<P: Ptr, V, W>(a: Seq<InternalEntry<PtrNoGen<P>, Val<V>>>, b: Seq<InternalEntry<PtrNoGen<P>, Val<W>>>, i: int) -> bool {
    match (ent(a, i), ent(b, i)) {
        (None, None) => true,
        (Some((g, l)), Some((h, k))) => l.key_count == k.key_count,
        _ => false,
    }
}

pub proof fn lemma_surj_copied<P: Ptr, K, V, L, W>(m: Seq<KeyEnt<P, K>>, w: Seq<InternalEntry<PtrNoGen<P>, Val<V>>>, n: Seq<KeyEnt<P, L>>, x: Seq<InternalEntry<PtrNoGen<P>, Val<W>>>)
    requires surj(m, w), forall|i: int| #![trigger ent(n, i)] kents_eq(m, n, i), forall|i: int| #![trigger ent(x, i)] vents_eq(w, x, i),
    ensures surj(n, x),
{
    assert forall|i: int| #![trigger kv(n, i)] #![trigger ent(n, i)] match kv(n, i) {
        Some(v) => ent(x, v) is Some,
        None => true,
    } by {
        assert(kents_eq(m, n, i));
        assert(kv(n, i) == kv(m, i));
        if kv(m, i) is Some { assert(vents_eq(w, x, kv(m, i).unwrap())); }
    }
    assert forall|v: int| #![trigger ent(x, v)] match ent(x, v) {
        Some((_, y)) => set_ok(n, v, y.key_count@ as int),
        None => true,
    } by {
        assert(vents_eq(w, x, v));
        if ent(x, v) is Some {
            let c = ent(w, v).unwrap().1.key_count@ as int;
            assert(set_ok(m, v, c));
            let s = choose|s: Seq<P::Inx>| #[trigger] set_of(m, v, s) && s.len() == c;
            assert forall|k: int| 0 <= k < s.len() implies kv(n, (#[trigger] pos(s, k)).ival()) == Some(v) by { assert(kents_eq(m, n, pos(s, k).ival())); assert(kv(m, pos(s, k).ival()) == Some(v)); }
            assert forall|k: int| 0 <= k < s.len() implies knx(n, #[trigger] pos(s, k)) == Some(cyc(s, k)) by { assert(kents_eq(m, n, pos(s, k).ival())); assert(knx(m, pos(s, k)) == Some(cyc(s, k))); }
            assert forall|i: int| #![trigger kv(n, i)] kv(n, i) == Some(v) implies non(s, i) by { assert(kents_eq(m, n, i)); assert(kv(m, i) == Some(v)); }
            assert(set_of(n, v, s));
        }
    }
}

/// key `i` was mapped
pub open spec fn kmapped<P: Ptr, K, T, F: Fn(P, &K) -> T>(f: F, o: Seq<KeyEnt<P, K>>, i: int, t: T) -> bool {
    f.ensures((mkp::<P>(i, ent(o, i).unwrap().0), &ent(o, i).unwrap().1.t.k), t)
}

pub open spec fn kmappable<P: Ptr, K, T, F: Fn(P, &K) -> T>(f: F, o: Seq<KeyEnt<P, K>>) -> bool {
    forall|i: int| #![trigger ent(o, i)] match ent(o, i) {
        None => true,
        Some((g, u)) => f.requires((mkp::<P>(i, g), &u.t.k)),
    }
}

pub open spec fn vmappable<P: Ptr, V, W, F: Fn(NonZeroUsize, &V) -> W>(f: F, o: Seq<InternalEntry<PtrNoGen<P>, Val<V>>>) -> bool {
    forall|i: int| #![trigger ent(o, i)] match ent(o, i) {
        None => true,
        Some((g, u)) => f.requires((u.key_count, &u.v)),
    }
}
@@fn SurjectArena::clone_from_with props=S03,A07
    requires old(self).keys.a.wf(), old(self).vals.wf(), source.wf(), kmappable(map_key, source.keys.a.m@), vmappable(map_val, source.vals.m@),
    ensures final(self).wf(), final(self).keys.a.generation == source.keys.a.generation, final(self).keys.a.len == source.keys.a.len,
        final(self).vals.len == source.vals.len,
        forall|i: int| #![trigger ent(final(self).keys.a.m@, i)] kents_eq(source.keys.a.m@, final(self).keys.a.m@, i)
            && (ent(final(self).keys.a.m@, i) is Some ==> kmapped(map_key, source.keys.a.m@, i, ent(final(self).keys.a.m@, i).unwrap().1.t.k)),
        forall|i: int| #![trigger ent(final(self).vals.m@, i)] vents_eq(source.vals.m@, final(self).vals.m@, i)
            && (ent(final(self).vals.m@, i) is Some ==> map_val.ensures((ent(source.vals.m@, i).unwrap().1.key_count, &ent(source.vals.m@, i).unwrap().1.v), ent(final(self).vals.m@, i).unwrap().1.v)),
@start
    proof {
        let (m, w) = (source.keys.a.m@, source.vals.m@);
        assert forall|i: int| #![trigger m[i]] 0 <= i < m.len() implies match m[i] {
            Free(_) => true,
            Allocated(g, u) => map_key.requires((mkp::<P>(i + 1, g), &u.t.k)),
        } by { assert(ent(m, i + 1) == entx(m, i + 1)); }
        assert forall|i: int| #![trigger w[i]] 0 <= i < w.len() implies match w[i] {
            Free(_) => true,
            Allocated(g, u) => map_val.requires((u.key_count, &u.v)),
        } by { assert(ent(w, i + 1) == entx(w, i + 1)); }
    }
@closure 0
    -> (l: Key<P, K>) requires map_key.requires(($0, &$1.t.k)) ensures l.p_val == $1.t.p_val, map_key.ensures(($0, &$1.t.k), l.k)
@closure 1
    -> (l: Val<V>) requires map_val.requires(($1.key_count, &$1.v)) ensures l.key_count == $1.key_count, map_val.ensures(($1.key_count, &$1.v), l.v)
@end
    proof { lemma_surj_copied(source.keys.a.m@, source.vals.m@, self.keys.a.m@, self.vals.m@); }
@@text props=S03
/// copied with every generation
pub open spec fn copied<P: Ptr, K: Clone, V: Clone>(o: SurjectArena<P, K, V>, n: SurjectArena<P, K, V>) -> bool {
    &&& n.keys.a.generation == o.keys.a.generation && n.keys.a.len == o.keys.a.len && n.vals.len == o.vals.len
    &&& forall|i: int| #![trigger ent(n.keys.a.m@, i)] kents_eq(o.keys.a.m@, n.keys.a.m@, i)
        && (ent(n.keys.a.m@, i) is Some ==> cloned(ent(o.keys.a.m@, i).unwrap().1.t.k, ent(n.keys.a.m@, i).unwrap().1.t.k))
    &&& forall|i: int| #![trigger ent(n.vals.m@, i)] vents_eq(o.vals.m@, n.vals.m@, i)
        && (ent(n.vals.m@, i) is Some ==> cloned(ent(o.vals.m@, i).unwrap().1.v, ent(n.vals.m@, i).unwrap().1.v))
}
@@fn SurjectArena as Clone::clone props=S03,A07
    requires self.wf(),
    ensures r.wf(), copied(*self, r), r.keys.a.cap() == self.keys.a.cap(), r.vals.cap() == self.vals.cap(),
@end
    proof { lemma_surj_copied(self.keys.a.m@, self.vals.m@, __r.keys.a.m@, __r.vals.m@); }
@@fn SurjectArena as Clone::clone_from props=S03,A07
    requires old(self).keys.a.wf(), old(self).vals.wf(), source.wf(),
    ensures final(self).wf(), copied(*source, *final(self)),
        final(self).keys.a.cap() == (if source.keys.a.cap() < old(self).keys.a.cap() { old(self).keys.a.cap() } else { source.keys.a.cap() }),
        final(self).vals.cap() == (if source.vals.cap() < old(self).vals.cap() { old(self).vals.cap() } else { source.vals.cap() }),
@end
    proof { lemma_surj_copied(source.keys.a.m@, source.vals.m@, self.keys.a.m@, self.vals.m@); }
@@fn SurjectArena::clone_keys_to_arena props=S03,A07
    requires self.wf(), old(arena).wf(), kmappable(map, self.keys.a.m@),
    ensures final(arena).wf(), final(arena).generation == self.keys.a.generation, final(arena).len == self.keys.a.len,
        forall|i: int| #![trigger ent(final(arena).m@, i)] match ent(final(arena).m@, i) {
            None => ent(self.keys.a.m@, i) is None,
            Some((g, t)) => ent(self.keys.a.m@, i) is Some && ent(self.keys.a.m@, i).unwrap().0 == g && kmapped(map, self.keys.a.m@, i, t),
        },
@start
    proof {
        let m = self.keys.a.m@;
        assert forall|i: int| #![trigger m[i]] 0 <= i < m.len() implies match m[i] {
            Free(_) => true,
            Allocated(g, u) => map.requires((mkp::<P>(i + 1, g), &u.t.k)),
        } by { assert(ent(m, i + 1) == entx(m, i + 1)); }
    }
@closure 0
    -> (t: T) requires map.requires(($0, &$1.t.k)) ensures map.ensures(($0, &$1.t.k), t)
@@fn SurjectArena::clone_keys_to_chain_no_gen_arena props=S03,A07
    requires self.wf(), old(chain_arena).a.wf(), kmappable(map, self.keys.a.m@),
    ensures final(chain_arena).wf(), final(chain_arena).a.generation == self.keys.a.generation, final(chain_arena).a.len == self.keys.a.len,
        forall|i: int| #![trigger ent(final(chain_arena).a.m@, i)] match ent(final(chain_arena).a.m@, i) {
            None => ent(self.keys.a.m@, i) is None,
            Some((g, l)) => ent(self.keys.a.m@, i) is Some && ent(self.keys.a.m@, i).unwrap().0 == g
                && l.prev_next == ent(self.keys.a.m@, i).unwrap().1.prev_next && kmapped(map, self.keys.a.m@, i, l.t),
        },
@start
    proof {
        let m = self.keys.a.m@;
        assert forall|i: int| #![trigger m[i]] 0 <= i < m.len() implies match m[i] {
            Free(_) => true,
            Allocated(g, u) => map.requires((mkp::<P>(i + 1, g), &u.t.k)),
        } by { assert(ent(m, i + 1) == entx(m, i + 1)); }
    }
@closure 0
    -> (t: T) requires map.requires(($0, &$1.t.k)) ensures map.ensures(($0, &$1.t.k), t)
@@fn SurjectArena::clone_keys_to_chain_arena props=S03,A07
    requires self.wf(), old(chain_arena).a.wf(), kmappable(map, self.keys.a.m@),
    ensures final(chain_arena).wf(), final(chain_arena).a.generation == self.keys.a.generation, final(chain_arena).a.len == self.keys.a.len,
        forall|i: int| #![trigger ent(final(chain_arena).a.m@, i)] match ent(final(chain_arena).a.m@, i) {
            None => ent(self.keys.a.m@, i) is None,
            Some((g, l)) => ent(self.keys.a.m@, i) is Some && ent(self.keys.a.m@, i).unwrap().0 == g
                && l.prev_next == (full(self.keys.a.m@, ent(self.keys.a.m@, i).unwrap().1.prev_next.0), full(self.keys.a.m@, ent(self.keys.a.m@, i).unwrap().1.prev_next.1))
                && kmapped(map, self.keys.a.m@, i, l.t),
        },
@closure 0
    -> (t: T) requires map.requires(($0, &$1.k)) ensures map.ensures(($0, &$1.k), t)
@@end
@@module surject_iterators surject/surject_iterators.rs surject/surject_arena.rs
@@text
broadcast use {ptr_axioms, ax_vec_len, ax_vec_cap, arena_lemmas};
@@type PtrAdvancer
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
@@type SurjectPtrAdvancer
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
@@type Ptrs
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(K)]
@@type Keys
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(K)]
@@type Vals
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(V)]
@@type Iter
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
@@type IterSurject
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
@@text props=S01
impl<P: Ptr, K, V> SurjectPtrAdvancer<P, K, V> {
    /// the walk over the group listed by `s` has returned the first `k` keys
    pub open spec fn walking(self, c: SurjectArena<P, K, V>, v: int, s: Seq<P::Inx>, k: int) -> bool {
        &&& set_of(c.keys.a.m@, v, s)
        &&& 0 <= k <= s.len()
        &&& self.init == s[0]
        &&& self.ptr == (if k < s.len() { Some(s[k]) } else { None })
        &&& self.max_advances >= s.len() - k
    }

    /// a walk over the group of the value `v` in progress, or ended
    pub open spec fn wf(self, c: SurjectArena<P, K, V>, v: int) -> bool {
        self.ptr is Some ==> exists|s: Seq<P::Inx>, k: int| #[trigger] self.walking(c, v, s, k)
    }
}
@@fn PtrAdvancer as Advancer::advance props=A08,S03
    requires collection.keys.a.wf(),
    ensures advanced(collection.keys.a, old(self).adv.adv.inx@ as int, final(self).adv.adv.inx@ as int, r),
@@fn SurjectPtrAdvancer as Advancer::advance props=S01
    requires collection.wf(),
    ensures final(self).init == old(self).init,
        // whatever happened to the arena in between, only valid pointers
        r is Some ==> collection.has(r.unwrap()) && old(self).ptr == Some(r.unwrap().sinx()) && final(self).max_advances < old(self).max_advances,
        forall|v: int, s: Seq<P::Inx>, k: int| #[trigger] old(self).walking(*collection, v, s, k) ==> match r {
            Some(p) => k < s.len() && p.sinx() == s[k] && collection.has(p) && collection.vi(p) == v && final(self).walking(*collection, v, s, k + 1),
            None => k == s.len() && final(self).walking(*collection, v, s, k),
        },
@end
    proof {
        let r: Option<P> = __r;
        assert forall|v: int, s: Seq<P::Inx>, k: int| #[trigger] old(self).walking(*collection, v, s, k) implies match r {
            Some(p) => k < s.len() && p.sinx() == s[k] && collection.has(p) && collection.vi(p) == v && self.walking(*collection, v, s, k + 1),
            None => k == s.len() && self.walking(*collection, v, s, k),
        } by {
            assert(pos(s, 0) == s[0]);
            if k < s.len() {
                assert(pos(s, k) == s[k]);
                assert(knx(collection.keys.a.m@, pos(s, k)) == Some(cyc(s, k)));
                if k + 1 < s.len() { assert(pos(s, k + 1).ival() != pos(s, 0).ival()); }
            }
        }
    }
@@fn Ptrs as Iterator::next props=A08,S01
    requires old(self).iter.arena.wf(),
    ensures final(self).iter.arena == old(self).iter.arena,
        advanced(*old(self).iter.arena, old(self).iter.adv.inx@ as int, final(self).iter.adv.inx@ as int, r),
@@fn Keys as Iterator::next props=A08,S01
    requires old(self).iter.arena.wf(),
    ensures final(self).iter.arena == old(self).iter.arena,
        r is None ==> advanced(*old(self).iter.arena, old(self).iter.adv.inx@ as int, final(self).iter.adv.inx@ as int, None),
        r is Some ==> exists|p: P| #[trigger] old(self).iter.arena.has(p) && *r.unwrap() == old(self).iter.arena.val(p).t.k
            && advanced(*old(self).iter.arena, old(self).iter.adv.inx@ as int, final(self).iter.adv.inx@ as int, Some(p)),
@@fn Vals as Iterator::next props=A08,S01
    requires old(self).iter.arena.wf(),
    ensures final(self).iter.arena == old(self).iter.arena,
        r is None ==> advanced(*old(self).iter.arena, old(self).iter.adv.inx@ as int, final(self).iter.adv.inx@ as int, None),
        r is Some ==> exists|p: PtrNoGen<P>| #[trigger] old(self).iter.arena.has(p) && *r.unwrap() == old(self).iter.arena.val(p).v
            && advanced(*old(self).iter.arena, old(self).iter.adv.inx@ as int, final(self).iter.adv.inx@ as int, Some(p)),
@@fn Iter as Iterator::next props=A08,S01
    requires old(self).iter.arena.wf(), old(self).vals.wf(), surj(old(self).iter.arena.m@, old(self).vals.m@),
    ensures final(self).iter.arena == old(self).iter.arena, final(self).vals == old(self).vals,
        advanced(*old(self).iter.arena, old(self).iter.adv.inx@ as int, final(self).iter.adv.inx@ as int,
            match r { Some((p, _, _)) => Some(p), None => None }),
        match r {
            Some((p, k, v)) => kk(old(self).iter.arena.m@, idx(p)) == Some((p.sgen(), *k))
                && ent(old(self).vals.m@, kv(old(self).iter.arena.m@, idx(p)).unwrap()).unwrap().1.v == *v,
            None => true,
        },
@@fn IterSurject as Iterator::next props=S01
    requires old(self).arena.wf(), old(self).adv.ptr is Some ==> old(self).surject_val is Some,
    ensures final(self).arena == old(self).arena, final(self).surject_val == old(self).surject_val, final(self).adv.init == old(self).adv.init,
        match r {
            Some((p, k, v)) => old(self).arena.has(p) && *k == old(self).arena.key(p) && old(self).surject_val == Some(v),
            None => true,
        },
        forall|u: int, s: Seq<P::Inx>, k: int| #[trigger] old(self).adv.walking(*old(self).arena, u, s, k) ==> match r {
            Some((p, _, _)) => k < s.len() && p.sinx() == s[k] && old(self).arena.has(p) && final(self).adv.walking(*old(self).arena, u, s, k + 1),
            None => k == s.len() && final(self).adv.walking(*old(self).arena, u, s, k),
        },
@@fn SurjectArena::advancer props=A08,S03
    ensures r.adv.adv.inx@ == 1,
@@fn SurjectArena::advancer_surject props=S01
    requires self.wf(),
    ensures !self.has(p_init) ==> r.ptr is None,
        self.has(p_init) ==> exists|s: Seq<P::Inx>| #[trigger] r.walking(*self, self.vi(p_init), s, 0) && s[0] == p_init.sinx(),
@end
    proof { if self.has(p_init) { let s = lemma_set(*self, p_init); assert(__r.walking(*self, self.vi(p_init), s, 0)); } }
@@fn SurjectArena::ptrs props=A08,S01
    ensures r.iter.arena == &self.keys.a, r.iter.adv.inx@ == 1,
@@fn SurjectArena::keys props=A08,S01
    ensures r.iter.arena == &self.keys.a, r.iter.adv.inx@ == 1,
@@fn SurjectArena::vals props=A08,S01
    ensures r.iter.arena == &self.vals, r.iter.adv.inx@ == 1,
@@fn SurjectArena::iter props=A08,S01
    ensures r.iter.arena == &self.keys.a, r.vals == &self.vals, r.iter.adv.inx@ == 1,
@@fn SurjectArena::iter_surject props=S01
    requires self.wf(),
    ensures r.arena == self, !self.has(p_init) ==> r.adv.ptr is None,
        self.has(p_init) ==> (exists|s: Seq<P::Inx>| #[trigger] r.adv.walking(*self, self.vi(p_init), s, 0) && s[0] == p_init.sinx())
            && r.surject_val is Some && *r.surject_val.unwrap() == self.val(p_init),
@@text
use vstd::std_specs::cmp::*;
/// same pointers, equal keys and values, and the same neighbors
pub open spec fn sents_eq<P: Ptr, K: PartialEq, V: PartialEq>(a: SurjectArena<P, K, V>, b: SurjectArena<P, K, V>, i: int) -> bool {
    match (ent(a.keys.a.m@, i), ent(b.keys.a.m@, i)) {
        (None, None) => true,
        (Some((g, t)), Some((h, u))) => g == h && t.prev_next == u.prev_next && t.t.k.eq_spec(&u.t.k)
            && a.value(t.t.p_val._internal_inx.ival()).unwrap().eq_spec(&b.value(u.t.p_val._internal_inx.ival()).unwrap()),
        _ => false,
    }
}

/// with the same neighbors, the keys are grouped in the same way
pub proof fn lemma_same_groups<P: Ptr, K: PartialEq, V: PartialEq>(a: SurjectArena<P, K, V>, b: SurjectArena<P, K, V>, i: int, j: int)
    requires a.wf(), b.wf(), forall|i: int| #![trigger ent(a.keys.a.m@, i)] #![trigger ent(b.keys.a.m@, i)] sents_eq(a, b, i),
        kv(a.keys.a.m@, i) is Some, kv(a.keys.a.m@, j) == kv(a.keys.a.m@, i),
    ensures kv(b.keys.a.m@, i) is Some, kv(b.keys.a.m@, j) == kv(b.keys.a.m@, i),
{
    let (m, n) = (a.keys.a.m@, b.keys.a.m@);
    let v = kv(m, i).unwrap();
    assert(ent(m, i) is Some);
    assert(ent(a.vals.m@, v) is Some);
    let s = choose|s: Seq<P::Inx>| #[trigger] set_of(m, v, s) && s.len() == ent(a.vals.m@, v).unwrap().1.key_count@;
    let k = choose|k: int| 0 <= k < s.len() && nidx(#[trigger] s[k]) == i;
    let l = choose|l: int| 0 <= l < s.len() && nidx(#[trigger] s[l]) == j;
    lemma_walk_group(a, b, v, s, k);
    lemma_walk_group(a, b, v, s, l);
    assert(sents_eq(a, b, i));
    assert(ent(n, i) is Some);
}

proof fn lemma_walk_group<P: Ptr, K: PartialEq, V: PartialEq>(a: SurjectArena<P, K, V>, b: SurjectArena<P, K, V>, v: int, s: Seq<P::Inx>, k: int)
    requires a.wf(), b.wf(), forall|i: int| #![trigger ent(a.keys.a.m@, i)] #![trigger ent(b.keys.a.m@, i)] sents_eq(a, b, i),
        set_of(a.keys.a.m@, v, s), 0 <= k < s.len(),
    ensures kv(b.keys.a.m@, s[k].ival()) == kv(b.keys.a.m@, s[0].ival()),
    decreases k,
{
    if k > 0 {
        let (m, n) = (a.keys.a.m@, b.keys.a.m@);
        lemma_walk_group(a, b, v, s, k - 1);
        assert(pos(s, k - 1) == s[k - 1]);
        assert(knx(m, pos(s, k - 1)) == Some(s[k]));
        assert(kv(m, pos(s, k - 1).ival()) == Some(v));
        let q = s[k - 1];
        assert(ent(m, q.ival()) is Some);
        assert(sents_eq(a, b, q.ival()));
        assert(knx(n, q) == Some(s[k]));
        // the next key has the same value
        let u = kv(n, q.ival()).unwrap();
        assert(ent(b.vals.m@, u) is Some);
        let t = choose|t: Seq<P::Inx>| #[trigger] set_of(n, u, t) && t.len() == ent(b.vals.m@, u).unwrap().1.key_count@;
        assert(non(t, q.ival()));
        let j = choose|j: int| 0 <= j < t.len() && nidx(#[trigger] t[j]) == q.ival();
        assert(pos(t, j) == q);
        assert(knx(n, pos(t, j)) == Some(cyc(t, j)));
        assert(cyc(t, j) == pos(t, if j + 1 < t.len() { j + 1 } else { 0 }));
    }
}

/// Arenas that compare equal group their keys in the same way
pub open spec fn grouped_eq<P: Ptr, K, V>(a: SurjectArena<P, K, V>, b: SurjectArena<P, K, V>) -> bool {
    forall|i: int, j: int| #![trigger kv(a.keys.a.m@, i), kv(a.keys.a.m@, j)] kv(a.keys.a.m@, i) is Some && kv(a.keys.a.m@, j) is Some ==>
        kv(b.keys.a.m@, i) is Some && kv(b.keys.a.m@, j) is Some
        && (kv(a.keys.a.m@, i) == kv(a.keys.a.m@, j) <==> kv(b.keys.a.m@, i) == kv(b.keys.a.m@, j))
}

pub proof fn lemma_grouped_eq<P: Ptr, K: PartialEq, V: PartialEq>(a: SurjectArena<P, K, V>, b: SurjectArena<P, K, V>)
    requires a.wf(), b.wf(), forall|i: int| #![trigger ent(a.keys.a.m@, i)] #![trigger ent(b.keys.a.m@, i)] sents_eq(a, b, i),
        K::obeys_eq_spec(), V::obeys_eq_spec(),
    ensures grouped_eq(a, b),
{
    let (m, n) = (a.keys.a.m@, b.keys.a.m@);
    assert forall|i: int, j: int| #![trigger kv(m, i), kv(m, j)] kv(m, i) is Some && kv(m, j) is Some implies
        kv(n, i) is Some && kv(n, j) is Some
        && (kv(m, i) == kv(m, j) <==> kv(n, i) == kv(n, j)) by {
        assert(ent(m, i) is Some && ent(m, j) is Some);
        assert(sents_eq(a, b, i) && sents_eq(a, b, j));
        if kv(m, i) == kv(m, j) { lemma_same_groups(a, b, i, j); }
        if kv(n, i) == kv(n, j) { lemma_same_groups2(a, b, i, j); }
    }
}

proof fn lemma_same_groups2<P: Ptr, K: PartialEq, V: PartialEq>(a: SurjectArena<P, K, V>, b: SurjectArena<P, K, V>, i: int, j: int)
    requires a.wf(), b.wf(), forall|i: int| #![trigger ent(a.keys.a.m@, i)] #![trigger ent(b.keys.a.m@, i)] sents_eq(a, b, i),
        kv(b.keys.a.m@, i) is Some, kv(b.keys.a.m@, j) == kv(b.keys.a.m@, i),
    ensures kv(a.keys.a.m@, i) is Some, kv(a.keys.a.m@, j) == kv(a.keys.a.m@, i),
{
    let (m, n) = (a.keys.a.m@, b.keys.a.m@);
    let v = kv(n, i).unwrap();
    assert(ent(n, i) is Some);
    assert(ent(b.vals.m@, v) is Some);
    let s = choose|s: Seq<P::Inx>| #[trigger] set_of(n, v, s) && s.len() == ent(b.vals.m@, v).unwrap().1.key_count@;
    let k = choose|k: int| 0 <= k < s.len() && nidx(#[trigger] s[k]) == i;
    let l = choose|l: int| 0 <= l < s.len() && nidx(#[trigger] s[l]) == j;
    lemma_walk_group2(a, b, v, s, k);
    lemma_walk_group2(a, b, v, s, l);
    assert(sents_eq(a, b, i));
    assert(ent(m, i) is Some);
}

proof fn lemma_walk_group2<P: Ptr, K: PartialEq, V: PartialEq>(a: SurjectArena<P, K, V>, b: SurjectArena<P, K, V>, v: int, s: Seq<P::Inx>, k: int)
    requires a.wf(), b.wf(), forall|i: int| #![trigger ent(a.keys.a.m@, i)] #![trigger ent(b.keys.a.m@, i)] sents_eq(a, b, i),
        set_of(b.keys.a.m@, v, s), 0 <= k < s.len(),
    ensures kv(a.keys.a.m@, s[k].ival()) == kv(a.keys.a.m@, s[0].ival()),
    decreases k,
{
    if k > 0 {
        let (n, m) = (a.keys.a.m@, b.keys.a.m@);
        lemma_walk_group2(a, b, v, s, k - 1);
        assert(pos(s, k - 1) == s[k - 1]);
        assert(knx(m, pos(s, k - 1)) == Some(s[k]));
        assert(kv(m, pos(s, k - 1).ival()) == Some(v));
        let q = s[k - 1];
        assert(ent(m, q.ival()) is Some);
        assert(sents_eq(a, b, q.ival()));
        assert(knx(n, q) == Some(s[k]));
        let u = kv(n, q.ival()).unwrap();
        assert(ent(a.vals.m@, u) is Some);
        let t = choose|t: Seq<P::Inx>| #[trigger] set_of(n, u, t) && t.len() == ent(a.vals.m@, u).unwrap().1.key_count@;
        assert(non(t, q.ival()));
        let j = choose|j: int| 0 <= j < t.len() && nidx(#[trigger] t[j]) == q.ival();
        assert(pos(t, j) == q);
        assert(knx(n, pos(t, j)) == Some(cyc(t, j)));
        assert(cyc(t, j) == pos(t, if j + 1 < t.len() { j + 1 } else { 0 }));
    }
}
@@fn SurjectArena as PartialEq::eq props=S03
    requires self.wf(), other.wf(), K::obeys_eq_spec(), V::obeys_eq_spec(),
    ensures r == forall|i: int| #![trigger ent(self.keys.a.m@, i)] #![trigger ent(other.keys.a.m@, i)] sents_eq(*self, *other, i),
        r ==> grouped_eq(*self, *other),
@loop 0
    invariant_except_break adv0.adv.adv.inx@ == adv1.adv.adv.inx@,
    invariant self.wf(), other.wf(), K::obeys_eq_spec(), V::obeys_eq_spec(),
        forall|i: int| #![trigger ent(self.keys.a.m@, i)] #![trigger ent(other.keys.a.m@, i)] i < adv1.adv.adv.inx@ ==> sents_eq(*self, *other, i),
    ensures forall|i: int| #![trigger ent(self.keys.a.m@, i)] i >= adv1.adv.adv.inx@ ==> ent(self.keys.a.m@, i) is None,
    decreases self.keys.a.m@.len() + 1 - adv0.adv.adv.inx@,
@end
    proof { if __r { lemma_grouped_eq(*self, *other); } }
@@end
@@end
