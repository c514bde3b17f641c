@@module serde_spec traits/serde.rs
@@text
use crate::ord_build::{packed, counting};
/// What is stored for a value
pub enum Form {
    Leaf(int),
    Row(Seq<Form>),
    Map(Seq<(Form, Form)>),
}

/// `f` is a form in which `t` may be stored
pub uninterp spec fn writes<T>(t: T, f: Form) -> bool;
/// `t` may be what comes from reading `f`
pub uninterp spec fn took<T>(f: Form, t: T) -> bool;
/// reading `f` does not fail
pub uninterp spec fn fine<T>(f: Form) -> bool;
/// what a serializer stored in the end
pub uninterp spec fn stored<O>(x: O) -> Form;

// What is assumed of the serialization framework: the entries of a map and the
// parts of a tuple are stored, and handed out one after the other, unless there
// is an error
pub trait Error: Sized {
    fn custom<T>(msg: T) -> Self;
}

pub trait SerializeMap: Sized {
    type Ok;
    type Error;

    /// the entries stored so far
    spec fn log(self) -> Seq<(Form, Form)>;

    /// the number of entries that was announced
    spec fn want(self) -> Option<usize>;

    /// there will not be an error
    spec fn sound(self) -> bool;

    fn serialize_entry<K, V>(&mut self, key: &K, value: &V) -> (r: Result<(), Self::Error>)
        ensures final(self).want() == old(self).want(), old(self).sound() ==> r is Ok && final(self).sound(),
            r is Ok ==> final(self).log().len() == old(self).log().len() + 1 && final(self).log().drop_last() == old(self).log()
                && writes(*key, final(self).log().last().0) && writes(*value, final(self).log().last().1);

    fn end(self) -> (r: Result<Self::Ok, Self::Error>)
        requires self.want() matches Some(n) ==> n == self.log().len(),
        ensures r matches Ok(x) ==> stored(x) == Form::Map(self.log()), self.sound() ==> r is Ok;
}

pub trait SerializeTuple: Sized {
    type Ok;
    type Error;

    /// the parts stored so far
    spec fn log(self) -> Seq<Form>;

    /// the number of parts that was announced
    spec fn want(self) -> usize;

    /// there will not be an error
    spec fn sound(self) -> bool;

    fn serialize_element<T>(&mut self, value: &T) -> (r: Result<(), Self::Error>)
        ensures final(self).want() == old(self).want(), old(self).sound() ==> r is Ok && final(self).sound(),
            r is Ok ==> final(self).log().len() == old(self).log().len() + 1 && final(self).log().drop_last() == old(self).log()
                && writes(*value, final(self).log().last());

    fn end(self) -> (r: Result<Self::Ok, Self::Error>)
        requires self.want() == self.log().len(),
        ensures r matches Ok(x) ==> stored(x) == Form::Row(self.log()), self.sound() ==> r is Ok;
}

pub trait Serializer: Sized {
    type Ok;
    type Error: Error;
    type SerializeMap: SerializeMap<Ok = Self::Ok, Error = Self::Error>;
    type SerializeTuple: SerializeTuple<Ok = Self::Ok, Error = Self::Error>;

    /// there will not be an error
    spec fn sound(self) -> bool;

    fn serialize_map(self, len: Option<usize>) -> (r: Result<Self::SerializeMap, Self::Error>)
        ensures r matches Ok(s) ==> s.log() == Seq::<(Form, Form)>::empty() && s.want() == len,
            self.sound() ==> (r matches Ok(s) && s.sound());

    fn serialize_tuple(self, len: usize) -> (r: Result<Self::SerializeTuple, Self::Error>)
        ensures r matches Ok(s) ==> s.log() == Seq::<Form>::empty() && s.want() == len,
            self.sound() ==> (r matches Ok(s) && s.sound());
}

pub trait Serialize: Sized {
    /// the value is as it should be
    spec fn ready(&self) -> bool;

    /// the value can be stored
    spec fn storable(&self) -> bool;

    fn serialize<S: Serializer>(&self, serializer: S) -> (r: Result<S::Ok, S::Error>)
        requires self.ready(),
        ensures r matches Ok(x) ==> writes(*self, stored(x)), serializer.sound() && self.storable() ==> r is Ok;
}

pub trait MapAccess<'de>: Sized {
    type Error: Error;

    /// the entries that are still to be read
    spec fn forms(self) -> Seq<(Form, Form)>;

    /// there will not be an error because of anything else than the entries
    spec fn sound(self) -> bool;

    fn size_hint(&self) -> Option<usize>;

    fn next_entry<K, V>(&mut self) -> (r: Result<Option<(K, V)>, Self::Error>)
        ensures match r {
            Ok(Some((k, v))) => old(self).forms().len() > 0 && took(old(self).forms()[0].0, k) && took(old(self).forms()[0].1, v) && final(self).forms() == old(self).forms().skip(1),
            Ok(None) => old(self).forms().len() == 0,
            Err(_) => true,
        }, old(self).sound() && (old(self).forms().len() > 0 ==> fine::<K>(old(self).forms()[0].0) && fine::<V>(old(self).forms()[0].1)) ==> r is Ok && final(self).sound();
}

pub trait Visitor<'de>: Sized {
    type Value;

    /// `x` may be what comes from the entries `s`
    spec fn visited(s: Seq<(Form, Form)>, x: Self::Value) -> bool;

    /// there is no error for the entries `s`
    spec fn accepts(s: Seq<(Form, Form)>) -> bool;

    fn visit_map<M: MapAccess<'de>>(self, access: M) -> (r: Result<Self::Value, M::Error>)
        ensures r matches Ok(x) ==> Self::visited(access.forms(), x), access.sound() && Self::accepts(access.forms()) ==> r is Ok;
}

pub trait Deserializer<'de>: Sized {
    type Error: Error;

    /// what is to be read
    spec fn form(self) -> Form;

    /// there will not be an error because of anything else than the form
    spec fn sound(self) -> bool;

    fn deserialize_map<V: Visitor<'de>>(self, visitor: V) -> (r: Result<V::Value, Self::Error>)
        ensures match self.form() {
            Form::Map(s) => (r matches Ok(x) ==> V::visited(s, x)) && (self.sound() && V::accepts(s) ==> r is Ok),
            _ => r is Err,
        };
}

pub trait Deserialize<'de>: Sized {
    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> (r: Result<Self, D::Error>)
        ensures r matches Ok(x) ==> took(deserializer.form(), x), deserializer.sound() && fine::<Self>(deserializer.form()) ==> r is Ok;
}
@@text props=E01,E02
broadcast use {ptr_axioms, ax_vec_len, ax_vec_cap, arena_lemmas};
/// some entry with index `j` is among the first `n`
pub open spec fn named<I: PtrInx, T>(s: Seq<(I, T)>, n: int, j: int) -> bool {
    exists|k: int| 0 <= k < n && nidx((#[trigger] s[k]).0) == j
}

/// the first `n` entries of `s` are exactly the elements
pub open spec fn listed<P: Ptr, T>(s: Seq<(P::Inx, T)>, n: int, m: Seq<InternalEntry<P, T>>) -> bool {
    &&& cnt(m) == n
    &&& forall|k: int| 0 <= k < n ==> match ent(m, nidx((#[trigger] s[k]).0)) { Some((g, t)) => g.gval() == 2 && t == s[k].1, None => false }
    &&& forall|j: int| #![trigger ent(m, j)] ent(m, j) is Some ==> named(s, n, j)
    &&& m.len() > 0 ==> named(s, n, m.len() as int)
}

/// no index is there twice
pub open spec fn distinct<I: PtrInx, T>(s: Seq<(I, T)>) -> bool {
    forall|j: int, k: int| #![trigger s[j], s[k]] 0 <= j < k < s.len() ==> nidx(s[j].0) != nidx(s[k].0)
}

pub proof fn lemma_listed<P: Ptr, T>(s0: Seq<(P::Inx, T)>, s: Seq<(P::Inx, T)>, m: Seq<InternalEntry<P, T>>, m1: Seq<InternalEntry<P, T>>, g: P::Gen)
    requires listed(s0, s0.len() as int, m), s.len() == s0.len() + 1, s.drop_last() == s0, g.gval() == 2, m1.len() == (if nidx(s.last().0) > m.len() { nidx(s.last().0) } else { m.len() as int }),
        forall|i: int| #![trigger m1[i]] 0 <= i < m.len() ==> m1[i] == m[i],
        forall|i: int| #![trigger m1[i]] m.len() <= i < m1.len() ==> m1[i] is Free,
        m1[nidx(s.last().0) - 1] is Free,
    ensures listed(s, s.len() as int, m1.update(nidx(s.last().0) - 1, Allocated(g, s.last().1))),
{
    let n = s0.len() as int;
    let x = nidx(s[n].0);
    let e = InternalEntry::<P, T>::Allocated(g, s[n].1);
    let m2 = m1.update(x - 1, e);
    lemma_cnt_extend(m, m1);
    lemma_cnt_update(m1, x - 1, e);
    assert forall|k: int| 0 <= k < n implies #[trigger] s[k] == s0[k] by { assert(s.drop_last()[k] == s0[k]); }
    assert forall|j: int| #![trigger ent(m2, j)] ent(m2, j) is Some implies named(s, n + 1, j) by {
        if j != x {
            assert(ent(m, j) is Some);
            let k = choose|k: int| 0 <= k < n && nidx((#[trigger] s0[k]).0) == j;
            assert(nidx(s[k].0) == j);
        } else {
            assert(nidx(s[n].0) == x);
        }
    }
    if m2.len() == m.len() && m.len() > 0 {
        let k = choose|k: int| 0 <= k < n && nidx((#[trigger] s0[k]).0) == m.len();
        assert(nidx(s[k].0) == m.len());
    } else {
        assert(nidx(s[n].0) == m2.len());
    }
    assert forall|k: int| 0 <= k < n + 1 implies match ent(m2, nidx((#[trigger] s[k]).0)) { Some((g, t)) => g.gval() == 2 && t == s[k].1, None => false } by {
        if k < n { assert(s[k] == s0[k]); assert(ent(m, nidx(s0[k].0)) is Some); }
    }
}

/// the entries `e` may come from reading `s`
pub open spec fn pairs_of<K, V>(s: Seq<(Form, Form)>, e: Seq<(K, V)>) -> bool {
    &&& s.len() == e.len()
    &&& forall|k: int| 0 <= k < s.len() ==> took((#[trigger] s[k]).0, e[k].0) && took(s[k].1, e[k].1)
}

pub open spec fn all_fine<K, V>(s: Seq<(Form, Form)>) -> bool {
    forall|k: int| 0 <= k < s.len() ==> fine::<K>((#[trigger] s[k]).0) && fine::<V>(s[k].1)
}

pub open spec fn arena_of<P: Ptr, T>(s: Seq<(Form, Form)>, e: Seq<(P::Inx, T)>, a: Arena<P, T>) -> bool {
    pairs_of(s, e) && a.wf() && a.gen() == 2 && listed(e, e.len() as int, a.m@)
}

pub open spec fn arena_took<P: Ptr, T>(f: Form, a: Arena<P, T>) -> bool {
    match f { Form::Map(s) => exists|e: Seq<(P::Inx, T)>| #[trigger] arena_of(s, e, a), _ => false }
}

pub proof fn lemma_arena_took<P: Ptr, T>(s: Seq<(Form, Form)>, e: Seq<(P::Inx, T)>, a: Arena<P, T>)
    requires arena_of(s, e, a),
    ensures arena_took(Form::Map(s), a),
{
    let f = Form::Map(s);
    assert(f is Map);
    assert(f->Map_0 == s);
    assert(exists|e: Seq<(P::Inx, T)>| #[trigger] arena_of(s, e, a));
    assert(exists|e: Seq<(P::Inx, T)>| #[trigger] arena_of(f->Map_0, e, a));
}

/// no index is read twice
pub open spec fn arena_fine<P: Ptr, T>(f: Form) -> bool {
    f matches Form::Map(s) && all_fine::<P::Inx, T>(s) && forall|e: Seq<(P::Inx, T)>| e.len() <= s.len() && #[trigger] pairs_of(s.take(e.len() as int), e) ==> distinct(e)
}

// the definitions for this type
pub broadcast axiom fn ax_took_arena<P: Ptr, T>(f: Form, a: Arena<P, T>)
    ensures #[trigger] took::<Arena<P, T>>(f, a) == arena_took(f, a);
pub broadcast axiom fn ax_fine_arena<P: Ptr, T>(f: Form)
    ensures #[trigger] fine::<Arena<P, T>>(f) == arena_fine::<P, T>(f);

pub proof fn lemma_listed_gens<P: Ptr, T>(s: Seq<(P::Inx, T)>, m: Seq<InternalEntry<P, T>>)
    requires listed(s, s.len() as int, m),
    ensures forall|i: int| #![trigger m[i]] 0 <= i < m.len() && m[i] is Allocated ==> m[i]->Allocated_0.gval() == 2,
{
    assert forall|i: int| #![trigger m[i]] 0 <= i < m.len() && m[i] is Allocated implies m[i]->Allocated_0.gval() == 2 by {
        assert(ent(m, i + 1) is Some);
        let k = choose|k: int| 0 <= k < s.len() && nidx((#[trigger] s[k]).0) == i + 1;
        assert(nidx(s[k].0) == i + 1);
    }
}

pub proof fn lemma_pairs<K, V>(s: Seq<(Form, Form)>, e0: Seq<(K, V)>, e: Seq<(K, V)>)
    requires e0.len() < s.len(), e.len() == e0.len() + 1, e.drop_last() == e0, pairs_of(s.take(e0.len() as int), e0), took(s[e0.len() as int].0, e.last().0), took(s[e0.len() as int].1, e.last().1),
    ensures pairs_of(s.take(e.len() as int), e),
{
    let n = e0.len() as int;
    let t = s.take(n + 1);
    assert forall|k: int| 0 <= k < t.len() implies took((#[trigger] t[k]).0, e[k].0) && took(t[k].1, e[k].1) by {
        if k < n {
            assert(s.take(n)[k] == t[k]);
            assert(e.drop_last()[k] == e0[k]);
        }
    }
}

/// `fl` lists the free entries before `c`, the last one first
pub open spec fn fl_part<P: Ptr, T>(m: Seq<InternalEntry<P, T>>, fl: Seq<int>, c: int) -> bool {
    &&& forall|k: int| 0 <= k < fl.len() ==> #[trigger] fl_node(m, fl, k) && fl[k] < c
    &&& forall|j: int, k: int| #![trigger fl[j], fl[k]] 0 <= j < k < fl.len() ==> fl[j] > fl[k]
    &&& forall|i: int| #![trigger m[i]] 0 <= i < c - 1 && i < m.len() && m[i] is Free ==> fl.contains(i + 1)
}

/// where the list starts
pub open spec fn fl_top(last: Option<NonZeroUsize>, fl: Seq<int>) -> bool {
    match last { Some(x) => fl.len() > 0 && fl[0] == x@, None => fl.len() == 0 }
}

pub proof fn lemma_fl_part<P: Ptr, T>(m: Seq<InternalEntry<P, T>>, n: Seq<InternalEntry<P, T>>, fl: Seq<int>, c: int)
    requires fl_part(m, fl, c), 1 <= c <= m.len(), n == m || n == m.update(c - 1, n[c - 1]), n[c - 1] is Free <==> m[c - 1] is Free,
        n[c - 1] is Free ==> n[c - 1]->Free_0.ival() == (if fl.len() > 0 { fl[0] } else { c }),
    ensures m[c - 1] is Free ==> fl_part(n, seq![c] + fl, c + 1), m[c - 1] is Allocated ==> fl_part(n, fl, c + 1),
{
    if m[c - 1] is Free {
        let f2 = seq![c] + fl;
        assert forall|k: int| 0 <= k < f2.len() implies #[trigger] fl_node(n, f2, k) && f2[k] < c + 1 by {
            if k > 0 {
                assert(fl_node(m, fl, k - 1));
                assert(f2[k] == fl[k - 1]);
                if k + 1 < f2.len() { assert(f2[k + 1] == fl[k]); }
            } else {
                assert(f2[0] == c);
                if fl.len() > 0 { assert(f2[1] == fl[0]); }
            }
        }
        assert forall|j: int, k: int| #![trigger f2[j], f2[k]] 0 <= j < k < f2.len() implies f2[j] > f2[k] by {
            assert(f2[k] == fl[k - 1]);
            assert(fl_node(m, fl, k - 1));
            if j > 0 { assert(f2[j] == fl[j - 1]); }
        }
        assert forall|i: int| #![trigger n[i]] 0 <= i < c && i < n.len() && n[i] is Free implies f2.contains(i + 1) by {
            if i == c - 1 {
                assert(f2[0] == i + 1);
            } else {
                assert(m[i] is Free);
                let k = choose|k: int| 0 <= k < fl.len() && fl[k] == i + 1;
                assert(f2[k + 1] == i + 1);
            }
        }
    } else {
        assert forall|k: int| 0 <= k < fl.len() implies #[trigger] fl_node(n, fl, k) && fl[k] < c + 1 by {
            assert(fl_node(m, fl, k));
        }
        assert forall|i: int| #![trigger n[i]] 0 <= i < c && i < n.len() && n[i] is Free implies fl.contains(i + 1) by {
            assert(m[i] is Free);
        }
    }
}

pub proof fn lemma_fl_done<P: Ptr, T>(m: Seq<InternalEntry<P, T>>, root: Option<P::Inx>, fl: Seq<int>)
    requires fl_part(m, fl, m.len() as int + 1), root is None <==> fl.len() == 0, root is Some ==> fl[0] == root.unwrap().ival(),
    ensures fl_ok(m, root),
{
    reveal(fl_ok);
    assert(fl_is(m, root, fl));
}
/// the entry at position `k` of a row of `n` entries
pub open spec fn row_at<P: Ptr, K, V>(e: Seq<(K, V)>, m: Seq<NodeEnt<P, K, V>>, n: int, k: int) -> bool {
    match m[k] {
        InternalEntry::Allocated(g, l) => {
            &&& g.gval() == 2
            &&& l.prev_next.0 == (if k == 0 { None::<P::Inx> } else { Some(<P::Inx as PtrInx>::simk(k)) })
            &&& l.prev_next.1 == (if k + 1 == n { None::<P::Inx> } else { Some(<P::Inx as PtrInx>::simk(k + 2)) })
            &&& l.t.k == e[k].0 && l.t.v == e[k].1
            &&& l.t.p_tree0 is None && l.t.p_tree1 is None
        },
        InternalEntry::Free(_) => false,
    }
}

pub open spec fn row<P: Ptr, K, V>(e: Seq<(K, V)>, m: Seq<NodeEnt<P, K, V>>, n: int) -> bool {
    &&& m.len() == n && n <= <P::Inx as PtrInx>::maxi()
    &&& forall|k: int| 0 <= k < n ==> #[trigger] row_at(e, m, n, k)
}

pub proof fn lemma_row<P: Ptr, K, V>(e0: Seq<(K, V)>, e: Seq<(K, V)>, m: Seq<NodeEnt<P, K, V>>, m1: Seq<NodeEnt<P, K, V>>)
    requires row(e0, m, e0.len() as int), e.len() == e0.len() + 1, e.drop_last() == e0, m1.len() == e.len(), e.len() <= <P::Inx as PtrInx>::maxi(), row_at(e, m1, e.len() as int, e0.len() as int),
        forall|i: int| #![trigger m1[i]] 0 <= i < e0.len() - 1 ==> m1[i] == m[i],
        e0.len() > 0 ==> m1[e0.len() - 1] is Allocated && m1[e0.len() - 1]->Allocated_0 == m[e0.len() - 1]->Allocated_0 && m1[e0.len() - 1]->Allocated_1.t == m[e0.len() - 1]->Allocated_1.t
            && m1[e0.len() - 1]->Allocated_1.prev_next.0 == m[e0.len() - 1]->Allocated_1.prev_next.0 && m1[e0.len() - 1]->Allocated_1.prev_next.1 == Some(<P::Inx as PtrInx>::simk(e0.len() as int + 1)),
    ensures row(e, m1, e.len() as int),
{
    let n = e0.len() as int;
    assert forall|k: int| 0 <= k < n + 1 implies #[trigger] row_at(e, m1, n + 1, k) by {
        if k < n {
            assert(e.drop_last()[k] == e0[k]);
            assert(row_at(e0, m, n, k));
            assert(m1[k] is Allocated);
        }
    }
}

pub proof fn lemma_row_done<P: Ptr, K, V>(e: Seq<(K, V)>, a: OrdChain<P, K, V>)
    requires row(e, a.a.m@, e.len() as int), a.a.m.wf(), a.a.cap() <= <P::Inx as PtrInx>::maxi(), a.a.freelist_root is None, a.a.len == e.len(), a.a.gen() == 2,
    ensures a.wf(), e.len() > 0 ==> packed(a), e.len() == 0 ==> a.a.none_left(),
        forall|k: int| #![trigger e[k]] 0 <= k < e.len() ==> nd(a, <P::Inx as PtrInx>::simk(k + 1)).k == e[k].0 && nd(a, <P::Inx as PtrInx>::simk(k + 1)).v == e[k].1,
{
    let m = a.a.m@;
    let n = e.len() as int;
    let ord = counting::<P>(n);
    assert forall|i: int| #![trigger m[i]] 0 <= i < m.len() implies m[i] is Allocated && m[i]->Allocated_0.gval() == 2 by {
        assert(row_at(e, m, n, i));
    }
    reveal(fl_ok);
    assert(fl_is(m, a.a.freelist_root, Seq::empty()));
    lemma_cnt_full(m);
    assert forall|i: int| (match #[trigger] ent(m, i) { Some((g, l)) => nsym_at(m, i, g, l), None => true }) by {
        if 1 <= i <= n {
            assert(row_at(e, m, n, i - 1));
            if i > 1 { assert(row_at(e, m, n, i - 2)); assert(entx(m, i - 1) is Some); }
            if i < n { assert(row_at(e, m, n, i)); assert(entx(m, i + 1) is Some); }
        }
    }
    assert forall|k: int| 0 <= k < n implies #[trigger] ck_ok(a, ord, k) by {
        assert(row_at(e, m, n, k));
        assert(ord[k].ival() == k + 1);
    }
    assert forall|p: P::Inx| #[trigger] a.live(p) implies p.ival() <= a.a.len && nd(a, p).p_tree0 is None && nd(a, p).p_tree1 is None by {
        assert(row_at(e, m, n, p.ival() - 1));
    }
    assert forall|k: int| #![trigger e[k]] 0 <= k < e.len() implies nd(a, <P::Inx as PtrInx>::simk(k + 1)).k == e[k].0 && nd(a, <P::Inx as PtrInx>::simk(k + 1)).v == e[k].1 by {
        assert(row_at(e, m, n, k));
    }
}

pub proof fn lemma_row_pairs<P: Ptr, K, V>(e: Seq<(K, V)>, a: OrdChain<P, K, V>, r: OrdArena<P, K, V>)
    requires row(e, a.a.m@, e.len() as int), r.order() == counting::<P>(e.len() as int), kv_same(a, r.a),
    ensures same_pairs(e, r),
{
    assert forall|k: int| #![trigger e[k]] 0 <= k < e.len() implies r.key(<P::Inx as PtrInx>::simk(k + 1)) == e[k].0 && r.value(<P::Inx as PtrInx>::simk(k + 1)) == e[k].1 by {
        assert(row_at(e, a.a.m@, e.len() as int, k));
        assert(kv_at(a.a.m@, r.a.a.m@, k + 1));
        assert(ent(a.a.m@, k + 1) is Some);
    }
}

/// the pairs of the ordered arena are those of `e`, from the first to the last
pub open spec fn same_pairs<P: Ptr, K, V>(e: Seq<(K, V)>, r: OrdArena<P, K, V>) -> bool {
    &&& r.order() == counting::<P>(e.len() as int)
    &&& forall|k: int| #![trigger e[k]] 0 <= k < e.len() ==> r.key(<P::Inx as PtrInx>::simk(k + 1)) == e[k].0 && r.value(<P::Inx as PtrInx>::simk(k + 1)) == e[k].1
}

pub open spec fn ord_of<P: Ptr, K, V>(s: Seq<(Form, Form)>, e: Seq<(K, V)>, o: OrdArena<P, K, V>) -> bool {
    pairs_of(s, e) && o.wf() && o.a.a.gen() == 2 && o.a.a.len == e.len() && same_pairs(e, o)
}

pub open spec fn ord_took<P: Ptr, K, V>(f: Form, o: OrdArena<P, K, V>) -> bool {
    match f { Form::Map(s) => exists|e: Seq<(K, V)>| #[trigger] ord_of(s, e, o), _ => false }
}

pub open spec fn ord_fine<P: Ptr, K, V>(f: Form) -> bool {
    match f { Form::Map(s) => all_fine::<K, V>(s) && s.len() <= <P::Inx as PtrInx>::maxi(), _ => false }
}

pub proof fn lemma_ord_took<P: Ptr, K, V>(s: Seq<(Form, Form)>, e: Seq<(K, V)>, o: OrdArena<P, K, V>)
    requires ord_of(s, e, o),
    ensures ord_took(Form::Map(s), o),
{
    let f = Form::Map(s);
    assert(f->Map_0 == s);
    assert(exists|e: Seq<(K, V)>| #[trigger] ord_of(f->Map_0, e, o));
}

pub open spec fn row2<A, B>(a: A, b: B, f: Form) -> bool {
    match f { Form::Row(s) => s.len() == 2 && writes(a, s[0]) && writes(b, s[1]), _ => false }
}

pub open spec fn row3<A, B, C>(a: A, b: B, c: C, f: Form) -> bool {
    match f { Form::Row(s) => s.len() == 3 && writes(a, s[0]) && writes(b, s[1]) && writes(c, s[2]), _ => false }
}

/// the entries `e` are stored as `s`
pub open spec fn puts<K, V>(e: Seq<(K, V)>, s: Seq<(Form, Form)>) -> bool {
    &&& s.len() == e.len()
    &&& forall|k: int| 0 <= k < s.len() ==> writes(e[k].0, (#[trigger] s[k]).0) && writes(e[k].1, s[k].1)
}

/// the entries `e` are those before raw index `c`, from the first to the last
pub open spec fn lists<P: Ptr, T>(e: Seq<(P::Inx, T)>, m: Seq<InternalEntry<P, T>>, c: int) -> bool {
    &&& distinct(e) && e.len() == cnt(m.take(c - 1))
    &&& forall|k: int| 0 <= k < e.len() ==> nidx((#[trigger] e[k]).0) < c && match ent(m, nidx(e[k].0)) { Some((_, t)) => t == e[k].1, None => false }
    &&& forall|j: int| #![trigger ent(m, j)] j < c && ent(m, j) is Some ==> named(e, e.len() as int, j)
}

pub open spec fn arena_put<P: Ptr, T>(s: Seq<(Form, Form)>, e: Seq<(P::Inx, T)>, a: Arena<P, T>) -> bool {
    puts(e, s) && lists(e, a.m@, a.m@.len() as int + 1)
}

pub open spec fn arena_writes<P: Ptr, T>(a: Arena<P, T>, f: Form) -> bool {
    match f { Form::Map(s) => exists|e: Seq<(P::Inx, T)>| #[trigger] arena_put(s, e, a), _ => false }
}

pub proof fn lemma_arena_writes<P: Ptr, T>(s: Seq<(Form, Form)>, e: Seq<(P::Inx, T)>, a: Arena<P, T>)
    requires arena_put(s, e, a),
    ensures arena_writes(a, Form::Map(s)),
{
    let f = Form::Map(s);
    assert(f->Map_0 == s);
    assert(exists|e: Seq<(P::Inx, T)>| #[trigger] arena_put(f->Map_0, e, a));
}

pub open spec fn ord_put<P: Ptr, K, V>(s: Seq<(Form, Form)>, e: Seq<(K, V)>, o: OrdArena<P, K, V>) -> bool {
    puts(e, s) && same_pairs(e, o)
}

/// only what is compressed is stored
pub open spec fn ord_writes<P: Ptr, K, V>(o: OrdArena<P, K, V>, f: Form) -> bool {
    match f { Form::Map(s) => exists|e: Seq<(K, V)>| #[trigger] ord_put(s, e, o), _ => false }
}

pub proof fn lemma_ord_writes<P: Ptr, K, V>(s: Seq<(Form, Form)>, e: Seq<(K, V)>, o: OrdArena<P, K, V>)
    requires ord_put(s, e, o),
    ensures ord_writes(o, Form::Map(s)),
{
    let f = Form::Map(s);
    assert(f->Map_0 == s);
    assert(exists|e: Seq<(K, V)>| #[trigger] ord_put(f->Map_0, e, o));
}

pub proof fn lemma_puts<K, V>(e0: Seq<(K, V)>, e: Seq<(K, V)>, s0: Seq<(Form, Form)>, s: Seq<(Form, Form)>)
    requires puts(e0, s0), e.len() == e0.len() + 1, e.drop_last() == e0, s.len() == s0.len() + 1, s.drop_last() == s0, writes(e.last().0, s.last().0), writes(e.last().1, s.last().1),
    ensures puts(e, s),
{
    assert forall|k: int| 0 <= k < s.len() implies writes(e[k].0, (#[trigger] s[k]).0) && writes(e[k].1, s[k].1) by {
        if k < s0.len() {
            assert(s.drop_last()[k] == s0[k]);
            assert(e.drop_last()[k] == e0[k]);
        }
    }
}

pub proof fn lemma_cnt_skip<P: Ptr, T>(m: Seq<InternalEntry<P, T>>, i: int, j: int)
    requires 0 <= i <= j <= m.len(), none_in(m, i + 1, j + 1),
    ensures cnt(m.take(j)) == cnt(m.take(i)),
    decreases j - i,
{
    if i < j {
        lemma_cnt_take(m, i);
        assert(ent(m, i + 1) is None);
        lemma_cnt_skip(m, i + 1, j);
    }
}

/// one more live entry was found
pub proof fn lemma_lists<P: Ptr, T>(e0: Seq<(P::Inx, T)>, e: Seq<(P::Inx, T)>, m: Seq<InternalEntry<P, T>>, c: int)
    requires lists(e0, m, c), e.len() == e0.len() + 1, e.drop_last() == e0, 1 <= c <= nidx(e.last().0), none_in(m, c, nidx(e.last().0)),
        ent(m, nidx(e.last().0)) matches Some((_, t)) && t == e.last().1,
    ensures lists(e, m, nidx(e.last().0) + 1),
{
    let n = e0.len() as int;
    let x = nidx(e.last().0);
    lemma_cnt_skip(m, c - 1, x - 1);
    lemma_cnt_take(m, x - 1);
    assert forall|k: int| 0 <= k < n implies #[trigger] e[k] == e0[k] by { assert(e.drop_last()[k] == e0[k]); }
    assert forall|j: int| #![trigger ent(m, j)] j < x + 1 && ent(m, j) is Some implies named(e, e.len() as int, j) by {
        if j < c {
            let k = choose|k: int| 0 <= k < n && nidx((#[trigger] e0[k]).0) == j;
            assert(nidx(e[k].0) == j);
        } else {
            assert(nidx(e[n].0) == x);
        }
    }
    assert forall|k: int| 0 <= k < e.len() implies nidx((#[trigger] e[k]).0) < x + 1 && match ent(m, nidx(e[k].0)) { Some((_, t)) => t == e[k].1, None => false } by {
        if k < n { assert(nidx(e0[k].0) < c); }
    }
    assert forall|j: int, k: int| #![trigger e[j], e[k]] 0 <= j < k < e.len() implies nidx(e[j].0) != nidx(e[k].0) by {
        assert(nidx(e0[j].0) < c);
        if k < n { assert(nidx(e0[k].0) < c); }
    }
}

pub proof fn lemma_lists_end<P: Ptr, T>(e: Seq<(P::Inx, T)>, m: Seq<InternalEntry<P, T>>, c: int)
    requires lists(e, m, c), 1 <= c, c <= m.len() + 1, none_in(m, c, m.len() as int + 1),
    ensures lists(e, m, m.len() as int + 1), e.len() == cnt(m),
{
    lemma_cnt_skip(m, c - 1, m.len() as int);
    assert(m.take(m.len() as int) =~= m);
    assert forall|j: int| #![trigger ent(m, j)] j < m.len() + 1 && ent(m, j) is Some implies named(e, e.len() as int, j) by { }
}

// The definitions for the types of this crate
pub broadcast axiom fn ax_took_ord<P: Ptr, K, V>(f: Form, o: OrdArena<P, K, V>)
    ensures #[trigger] took::<OrdArena<P, K, V>>(f, o) == ord_took(f, o);
pub broadcast axiom fn ax_fine_ord<P: Ptr, K, V>(f: Form)
    ensures #[trigger] fine::<OrdArena<P, K, V>>(f) == ord_fine::<P, K, V>(f);
pub broadcast axiom fn ax_writes_ord<P: Ptr, K, V>(o: OrdArena<P, K, V>, f: Form)
    ensures #[trigger] writes::<OrdArena<P, K, V>>(o, f) == ord_writes(o, f);
pub broadcast axiom fn ax_writes_arena<P: Ptr, T>(a: Arena<P, T>, f: Form)
    ensures #[trigger] writes::<Arena<P, T>>(a, f) == arena_writes(a, f);
pub broadcast axiom fn ax_took_link<P: Ptr, T>(f: Form, l: Link<P, T>)
    ensures #[trigger] took::<Link<P, T>>(f, l) == took::<(Option<P>, Option<P>, T)>(f, (l.prev_next.0, l.prev_next.1, l.t));
pub broadcast axiom fn ax_fine_link<P: Ptr, T>(f: Form)
    ensures #[trigger] fine::<Link<P, T>>(f) == fine::<(Option<P>, Option<P>, T)>(f);
pub broadcast axiom fn ax_writes_link<P: Ptr, T>(l: Link<P, T>, f: Form)
    ensures #[trigger] writes::<Link<P, T>>(l, f) == row3(l.prev_next.0, l.prev_next.1, l.t, f);
pub broadcast axiom fn ax_took_nlink<P: Ptr, T>(f: Form, l: LinkNoGen<P, T>)
    ensures #[trigger] took::<LinkNoGen<P, T>>(f, l) == took::<(Option<P::Inx>, Option<P::Inx>, T)>(f, (l.prev_next.0, l.prev_next.1, l.t));
pub broadcast axiom fn ax_fine_nlink<P: Ptr, T>(f: Form)
    ensures #[trigger] fine::<LinkNoGen<P, T>>(f) == fine::<(Option<P::Inx>, Option<P::Inx>, T)>(f);
pub broadcast axiom fn ax_writes_nlink<P: Ptr, T>(l: LinkNoGen<P, T>, f: Form)
    ensures #[trigger] writes::<LinkNoGen<P, T>>(l, f) == row3(l.prev_next.0, l.prev_next.1, l.t, f);
pub broadcast axiom fn ax_took_chain<P: Ptr, T>(f: Form, c: ChainArena<P, T>)
    ensures #[trigger] took::<ChainArena<P, T>>(f, c) == (took(f, c.a) && c.wf());
pub broadcast axiom fn ax_fine_chain<P: Ptr, T>(f: Form)
    ensures #[trigger] fine::<ChainArena<P, T>>(f) == (fine::<Arena<P, Link<P, T>>>(f) && forall|a: Arena<P, Link<P, T>>| #[trigger] took(f, a) ==> sym(a.m@));
pub broadcast axiom fn ax_writes_chain<P: Ptr, T>(c: ChainArena<P, T>, f: Form)
    ensures #[trigger] writes::<ChainArena<P, T>>(c, f) == writes(c.a, f);
pub broadcast axiom fn ax_took_nchain<P: Ptr, T>(f: Form, c: ChainNoGenArena<P, T>)
    ensures #[trigger] took::<ChainNoGenArena<P, T>>(f, c) == (took(f, c.a) && c.wf());
pub broadcast axiom fn ax_fine_nchain<P: Ptr, T>(f: Form)
    ensures #[trigger] fine::<ChainNoGenArena<P, T>>(f) == (fine::<Arena<P, LinkNoGen<P, T>>>(f) && forall|a: Arena<P, LinkNoGen<P, T>>| #[trigger] took(f, a) ==> nsym(a.m@));
pub broadcast axiom fn ax_writes_nchain<P: Ptr, T>(c: ChainNoGenArena<P, T>, f: Form)
    ensures #[trigger] writes::<ChainNoGenArena<P, T>>(c, f) == writes(c.a, f);
pub broadcast axiom fn ax_took_key<P: Ptr, K>(f: Form, k: Key<P, K>)
    ensures #[trigger] took::<Key<P, K>>(f, k) == took::<(K, PtrNoGen<P>)>(f, (k.k, k.p_val));
pub broadcast axiom fn ax_fine_key<P: Ptr, K>(f: Form)
    ensures #[trigger] fine::<Key<P, K>>(f) == fine::<(K, PtrNoGen<P>)>(f);
pub broadcast axiom fn ax_writes_key<P: Ptr, K>(k: Key<P, K>, f: Form)
    ensures #[trigger] writes::<Key<P, K>>(k, f) == row2(k.k, k.p_val, f);
pub broadcast axiom fn ax_took_val<V>(f: Form, v: Val<V>)
    ensures #[trigger] took::<Val<V>>(f, v) == took::<(V, NonZeroUsize)>(f, (v.v, v.key_count));
pub broadcast axiom fn ax_fine_val<V>(f: Form)
    ensures #[trigger] fine::<Val<V>>(f) == fine::<(V, NonZeroUsize)>(f);
pub broadcast axiom fn ax_writes_val<V>(v: Val<V>, f: Form)
    ensures #[trigger] writes::<Val<V>>(v, f) == row2(v.v, v.key_count, f);
pub broadcast axiom fn ax_took_surj<P: Ptr, K, V>(f: Form, x: SurjectArena<P, K, V>)
    ensures #[trigger] took::<SurjectArena<P, K, V>>(f, x) == (took::<(ChainNoGenArena<P, Key<P, K>>, Arena<PtrNoGen<P>, Val<V>>)>(f, (x.keys, x.vals)) && x.wf());
pub broadcast axiom fn ax_fine_surj<P: Ptr, K, V>(f: Form)
    ensures #[trigger] fine::<SurjectArena<P, K, V>>(f) == (fine::<(ChainNoGenArena<P, Key<P, K>>, Arena<PtrNoGen<P>, Val<V>>)>(f)
        && forall|x: SurjectArena<P, K, V>| #[trigger] took::<(ChainNoGenArena<P, Key<P, K>>, Arena<PtrNoGen<P>, Val<V>>)>(f, (x.keys, x.vals)) ==> surj(x.keys.a.m@, x.vals.m@));
pub broadcast axiom fn ax_writes_surj<P: Ptr, K, V>(x: SurjectArena<P, K, V>, f: Form)
    ensures #[trigger] writes::<SurjectArena<P, K, V>>(x, f) == row2(x.keys, x.vals, f);

// Assumed of the tuples: they are read part by part
pub broadcast axiom fn ax_took_2<A, B>(f: Form, x: (A, B))
    ensures #[trigger] took::<(A, B)>(f, x) == (f matches Form::Row(s) && s.len() == 2 && took(s[0], x.0) && took(s[1], x.1));
pub broadcast axiom fn ax_fine_2<A, B>(f: Form)
    ensures #[trigger] fine::<(A, B)>(f) == (f matches Form::Row(s) && s.len() == 2 && fine::<A>(s[0]) && fine::<B>(s[1]));
pub broadcast axiom fn ax_took_3<A, B, C>(f: Form, x: (A, B, C))
    ensures #[trigger] took::<(A, B, C)>(f, x) == (f matches Form::Row(s) && s.len() == 3 && took(s[0], x.0) && took(s[1], x.1) && took(s[2], x.2));
pub broadcast axiom fn ax_fine_3<A, B, C>(f: Form)
    ensures #[trigger] fine::<(A, B, C)>(f) == (f matches Form::Row(s) && s.len() == 3 && fine::<A>(s[0]) && fine::<B>(s[1]) && fine::<C>(s[2]));
// Pointers: only the index is stored, the generation is the first one
pub broadcast axiom fn ax_took_ptr<P: Ptr>(f: Form, p: P)
    ensures #[trigger] took::<P>(f, p) == (took::<P::Inx>(f, p.sinx()) && p.sgen().gval() == 2);
pub broadcast axiom fn ax_fine_ptr<P: Ptr>(f: Form)
    ensures #[trigger] fine::<P>(f) == fine::<P::Inx>(f);
pub broadcast axiom fn ax_writes_ptr<P: Ptr>(p: P, f: Form)
    ensures #[trigger] writes::<P>(p, f) == writes::<P::Inx>(p.sinx(), f);
pub broadcast group serde_ptr_defs { ax_took_ptr, ax_fine_ptr, ax_writes_ptr }
pub broadcast group serde_defs {
    ax_took_arena, ax_fine_arena, ax_writes_arena, ax_took_ord, ax_fine_ord, ax_writes_ord, ax_took_link, ax_fine_link, ax_writes_link, ax_took_nlink, ax_fine_nlink, ax_writes_nlink,
    ax_took_chain, ax_fine_chain, ax_writes_chain, ax_took_nchain, ax_fine_nchain, ax_writes_nchain, ax_took_key, ax_fine_key, ax_writes_key, ax_took_val, ax_fine_val, ax_writes_val,
    ax_took_surj, ax_fine_surj, ax_writes_surj, ax_took_2, ax_fine_2, ax_took_3, ax_fine_3,
}
impl<'de, A, B> Deserialize<'de> for (A, B) {
    #[verifier::external_body]
    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> { unimplemented!() }
}
impl<'de, A, B, C> Deserialize<'de> for (A, B, C) {
    #[verifier::external_body]
    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> { unimplemented!() }
}
@@module serde traits/serde.rs
@@text
use crate::serde_spec::*;
use crate::ord_build::{packed, counting};
broadcast use {ptr_axioms, ax_vec_len, ax_vec_cap, arena_lemmas, serde_defs};
pub mod ser { pub use crate::serde_spec::Error; }
pub struct ArenaVisitor<P: Ptr, T>(pub PhantomData<(P, T)>);
pub struct OrdArenaVisitor<P: Ptr, K, V>(pub PhantomData<(P, K, V)>);
@@impl ArenaVisitor as Visitor props=E01,E02 only=visit_map
    open spec fn visited(s: Seq<(Form, Form)>, x: Arena<P, T>) -> bool { arena_took(Form::Map(s), x) }
    open spec fn accepts(s: Seq<(Form, Form)>) -> bool { arena_fine::<P, T>(Form::Map(s)) }
@in visit_map attr #[verifier::loop_isolation(false)]
@in visit_map attr #[verifier::allow_complex_invariants]
@in visit_map start
    broadcast use {ptr_axioms, ax_vec_len, ax_vec_cap, arena_lemmas};
    let ghost s = access.forms();
    let ghost good = access.sound() && all_fine::<P::Inx, T>(s);
    let ghost mut e: Seq<(P::Inx, T)> = Seq::empty();
    let ghost mut fl: Seq<int> = Seq::empty();
@in visit_map before 0
    proof { assert(s.skip(0) =~= s); }
@in visit_map loop 0
    invariant a.m.wf(), a.gen() == 2, a.len == e.len(), a.cap() <= <P::Inx as PtrInx>::maxi(), 0 <= e.len() <= s.len(), access.forms() == s.skip(e.len() as int), listed(e, e.len() as int, a.m@), e.len() <= a.m@.len(),
        pairs_of(s.take(e.len() as int), e), good ==> access.sound(),
    ensures e.len() == s.len(),
    decreases access.forms().len(),
@in visit_map body 0
    let ghost m0 = a.m@;
    let ghost e0 = e;
    proof {
        let n = e.len() as int;
        if n < s.len() { assert(s.skip(n)[0] == s[n]); assert(s.skip(n).skip(1) =~= s.skip(n + 1)); }
    }
@in visit_map loop 1
    invariant a.m.wf(), m0.len() <= a.m@.len() <= i, a.m@.len() + (__e0 - __i0) == i, __i0 <= __e0,
        forall|k: int| #![trigger a.m@[k]] 0 <= k < m0.len() ==> a.m@[k] == m0[k],
        forall|k: int| #![trigger a.m@[k]] m0.len() <= k < a.m@.len() ==> a.m@[k] is Free,
        a.len == e.len(), a.gen() == 2,
    decreases __e0 - __i0,
@in visit_map pre m_get_mut 0
    let ghost m1 = a.m@;
    proof {
        e = e.push((p, t));
        assert(e.drop_last() =~= e0);
        lemma_pairs(s, e0, e);
        let x = nidx(p);
        if m1[x - 1] is Allocated {
            assert(ent(m0, x) is Some);
            let k = choose|k: int| 0 <= k < e0.len() && nidx((#[trigger] e0[k]).0) == x;
            assert(e[k] == e0[k] && nidx(e[k].0) == nidx(e.last().0));
            assert(!distinct(e));
        }
    }
@in visit_map at replace_free_with_allocated 0
    proof { assert(e.drop_last() =~= e0); lemma_listed(e0, e, m0, m1, a.m@[nidx(p) - 1]->Allocated_0); }
@in visit_map after 0
    let ghost mf = a.m@;
@in visit_map loop 2
    invariant a.m.wf(), a.gen() == 2, a.len == e.len(), a.cap() <= <P::Inx as PtrInx>::maxi(), $it.wf(), $it.current@ + $it.left() == mf.len() + 1, a.m@.len() == mf.len(),
        fl_part(a.m@, fl, $it.current@ as int), fl_top(last_free, fl),
        forall|j: int| #![trigger ent(a.m@, j)] ent(a.m@, j) == ent(mf, j),
    ensures $it.left() == 0,
    decreases $it.left(),
@in visit_map body 2
    let ghost c = $it2.current@ as int;
    let ghost m2 = a.m@;
    proof { if fl.len() > 0 { assert(fl_node(a.m@, fl, 0)); } }
@in visit_map tail 2
    proof {
        lemma_fl_part(m2, a.m@, fl, c);
        if m2[c - 1] is Free { fl = seq![c] + fl; }
    }
@in visit_map after 2
    proof { if fl.len() > 0 { assert(fl_node(a.m@, fl, 0)); } }
@in visit_map end
    proof {
        assert forall|i: int| 0 <= i < mf.len() implies ((#[trigger] mf[i]) is Free <==> a.m@[i] is Free) by {
            assert(ent(a.m@, i + 1) == ent(mf, i + 1));
        }
        lemma_cnt_same(mf, a.m@);
        assert(listed(e, e.len() as int, a.m@));
        lemma_listed_gens(e, a.m@);
        lemma_fl_done(a.m@, a.freelist_root, fl);
        assert(s.take(e.len() as int) =~= s);
        lemma_arena_took(s, e, a);
    }
@@impl Arena as Deserialize props=E01,E02
@@impl Link as Deserialize props=E01,E02
@@impl ChainArena as Deserialize props=E01,E02
@@impl LinkNoGen as Deserialize props=E01,E02
@@impl ChainNoGenArena as Deserialize props=E01,E02
@@impl Key as Deserialize props=E01,E02
@@impl Val as Deserialize props=E01,E02
@@impl OrdArenaVisitor as Visitor props=E01,E02 only=visit_map
    open spec fn visited(s: Seq<(Form, Form)>, x: OrdArena<P, K, V>) -> bool { ord_took(Form::Map(s), x) }
    open spec fn accepts(s: Seq<(Form, Form)>) -> bool { ord_fine::<P, K, V>(Form::Map(s)) }
@in visit_map attr #[verifier::loop_isolation(false)]
@in visit_map attr #[verifier::allow_complex_invariants]
@in visit_map start
    let ghost s = access.forms();
    let ghost good = access.sound() && all_fine::<K, V>(s);
    let ghost mut e: Seq<(K, V)> = Seq::empty();
@in visit_map before 0
    proof { assert(s.skip(0) =~= s); }
@in visit_map loop 0
    invariant a.m.wf(), a.gen() == 2, a.len == 0, a.cap() <= <P::Inx as PtrInx>::maxi(), e.len() <= s.len(), access.forms() == s.skip(e.len() as int), row(e, a.m@, e.len() as int), i == e.len() + 1,
        last == (if e.len() == 0 { None::<P::Inx> } else { Some(<P::Inx as PtrInx>::simk(e.len() as int)) }),
        pairs_of(s.take(e.len() as int), e), good ==> access.sound(),
    ensures e.len() == s.len(),
    decreases access.forms().len(),
@in visit_map body 0
    let ghost m0 = a.m@;
    let ghost e0 = e;
    proof {
        let n = e.len() as int;
        if n < s.len() { assert(s.skip(n)[0] == s[n]); assert(s.skip(n).skip(1) =~= s.skip(n + 1)); }
        if n > 0 { assert(row_at(e, m0, n, n - 1)); }
    }
@in visit_map pre push 0
    proof { e = e.push((t.t.k, t.t.v)); assert(e.drop_last() =~= e0); }
@in visit_map tail 0
    proof { lemma_pairs(s, e0, e); lemma_row(e0, e, m0, a.m@); }
@in visit_map pre is_empty 0
    let ghost b = res.a;
    proof { assert(s.take(e.len() as int) =~= s); lemma_row_done(e, b); if e.len() == 0 { lemma_none(res); assert(counting::<P>(0) =~= Seq::<P::Inx>::empty()); } }
@in visit_map at raw_rebalance_assuming_compressed 0
    proof { lemma_row_pairs(e, b, res); }
@in visit_map end
    proof { lemma_ord_took(s, e, res); }
@@impl OrdArena as Deserialize props=E01,E02
@@impl SurjectArena as Deserialize props=E01,E02
@@impl Arena as Serialize props=E01
    open spec fn ready(&self) -> bool { self.wf() }
    open spec fn storable(&self) -> bool { true }
@in serialize attr #[verifier::loop_isolation(false)]
@in serialize attr #[verifier::allow_complex_invariants]
@in serialize start
    let ghost mut e: Seq<(P::Inx, T)> = Seq::empty();
@in serialize before 0
    proof { assert(self.m@.take(0) =~= Seq::<InternalEntry<P, T>>::empty()); }
@in serialize loop 0
    invariant $it.arena == self, 1 <= $it.adv.inx@ <= self.m@.len() + 1, s.want() == Some(self.len), puts(e, s.log()), lists(e, self.m@, $it.adv.inx@ as int),
        serializer.sound() ==> s.sound(),
    ensures lists(e, self.m@, self.m@.len() as int + 1), e.len() == cnt(self.m@),
    decreases self.m@.len() + 1 - $it.adv.inx@,
@in serialize body 0
    let ghost c = $it0.adv.inx@ as int;
    let ghost s0 = s.log();
    let ghost e0 = e;
@in serialize at serialize_entry 0
    proof {
        e = e.push((p.sinx(), *t));
        assert(e.drop_last() =~= e0);
        lemma_puts(e0, e, s0, s.log());
        lemma_lists(e0, e, self.m@, c);
    }
@in serialize break 0
    proof { lemma_lists_end(e, self.m@, c); }
@in serialize after 0
    proof { lemma_arena_writes(s.log(), e, *self); }
@@impl Link as Serialize props=E01
    open spec fn ready(&self) -> bool { true }
    open spec fn storable(&self) -> bool { true }
@@impl LinkNoGen as Serialize props=E01
    open spec fn ready(&self) -> bool { true }
    open spec fn storable(&self) -> bool { true }
@@impl ChainArena as Serialize props=E01
    open spec fn ready(&self) -> bool { self.wf() }
    open spec fn storable(&self) -> bool { true }
@@impl ChainNoGenArena as Serialize props=E01
    open spec fn ready(&self) -> bool { self.wf() }
    open spec fn storable(&self) -> bool { true }
@@impl Key as Serialize props=E01
    open spec fn ready(&self) -> bool { true }
    open spec fn storable(&self) -> bool { true }
@@impl Val as Serialize props=E01
    open spec fn ready(&self) -> bool { true }
    open spec fn storable(&self) -> bool { true }
@@impl SurjectArena as Serialize props=E01
    open spec fn ready(&self) -> bool { true }
    open spec fn storable(&self) -> bool { true }
@@impl OrdArena as Serialize props=E01
    open spec fn ready(&self) -> bool { self.wf() }
    open spec fn storable(&self) -> bool { self.order() == counting::<P>(self.order().len() as int) }
@in serialize attr #[verifier::loop_isolation(false)]
@in serialize attr #[verifier::allow_complex_invariants]
@in serialize start
    let ghost mut e: Seq<(K, V)> = Seq::empty();
@in serialize before 0
    proof { lemma_wit(*self); }
@in serialize loop 0
    invariant $it.arena == self, e.len() <= self.order().len(), $it.adv.ptr == crate::ord_iterators::from(*self, e.len() as int), s.want() == Some(self.a.a.len), puts(e, s.log()),
        last == (if e.len() == 0 { None::<P::Inx> } else { Some(<P::Inx as PtrInx>::simk(e.len() as int)) }),
        forall|k: int| #![trigger self.order()[k]] 0 <= k < e.len() ==> self.order()[k] == <P::Inx as PtrInx>::simk(k + 1),
        forall|k: int| #![trigger e[k]] 0 <= k < e.len() ==> self.key(<P::Inx as PtrInx>::simk(k + 1)) == e[k].0 && self.value(<P::Inx as PtrInx>::simk(k + 1)) == e[k].1,
        serializer.sound() ==> s.sound(),
    ensures e.len() == self.order().len(),
    decreases self.order().len() - e.len(),
@in serialize body 0
    let ghost s0 = s.log();
    let ghost e0 = e;
    proof {
        let n = e.len() as int;
        assert(crate::ord_iterators::from(*self, n) == $it0.adv.ptr);
        if n < self.order().len() { lemma_pos(*self, n); }
    }
@in serialize at serialize_entry 0
    proof {
        e = e.push((*k, *v));
        assert(e.drop_last() =~= e0);
        lemma_puts(e0, e, s0, s.log());
    }
@in serialize after 0
    proof { assert(self.order() =~= counting::<P>(e.len() as int)); lemma_ord_writes(s.log(), e, *self); }
