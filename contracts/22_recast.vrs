@@module recast arena/arena_iterators.rs arena/base_arena.rs
@@text
broadcast use {ptr_axioms, ax_vec_len, ax_vec_cap, arena_lemmas};
@@text props=A06
/// the recaster has the pointers of `m`, those before raw index `c` with where their elements went
pub open spec fn recasts<P: Ptr, T>(m: Seq<InternalEntry<P, T>>, x: Seq<InternalEntry<P, P>>, c: int, g: P::Gen) -> bool {
    forall|i: int| #![trigger ent(m, i)] #![trigger ent(x, i)] match ent(m, i) {
        Some((h, _)) => ent(x, i) matches Some((k, q)) && k == h && (i < c ==> q == mkp::<P>(rank(m, i), g)),
        None => ent(x, i) is None,
    }
}
@@fn Arena::compress_and_shrink_recaster beta props=A06
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
    requires old(self).wf(),
    ensures final(self).wf(), final(self).cap() == old(self).len, final(self).len == old(self).len,
        final(self).gen() == old(self).gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int }),
        forall|i: int| #![trigger ent(old(self).m@, i)] ent(old(self).m@, i) is Some
            ==> ent(final(self).m@, rank(old(self).m@, i)) == Some((final(self).generation, ent(old(self).m@, i).unwrap().1)),
        r.wf(), recasts(old(self).m@, r.m@, old(self).cap() + 1, final(self).generation),
@closure 0
    -> (r: P) ensures true
@before 0
    let ghost om = old(self).m@;
    proof { assert(self.m@.take(0) =~= Seq::<InternalEntry<P, T>>::empty()); }
@loop 0
    invariant
        self.m.wf(), new_m__b1.wf(), res.wf(),
        $it.wf(), self.m@.len() == old(self).m@.len(),
        $it.current@ + $it.left() == self.m@.len() + 1,
        self.len == old(self).len, generation__b1 == self.generation,
        self.gen() == old(self).gen() + (if <P::Gen as PtrGen>::counted() { 1int } else { 0int }),
        j__b1 == new_m__b1@.len() + 1, new_m__b1@.len() == cnt(om.take($it.current@ - 1)),
        cnt(new_m__b1@) == new_m__b1@.len(),
        forall|i: int| #![trigger new_m__b1@[i]] 0 <= i < new_m__b1@.len() ==> new_m__b1@[i] is Allocated && new_m__b1@[i]->Allocated_0 == generation__b1,
        forall|i: int| #![trigger ent(om, i)] i < $it.current@ && ent(om, i) is Some
            ==> ent(new_m__b1@, rank(om, i)) == Some((generation__b1, ent(om, i).unwrap().1)),
        recasts(om, res.m@, $it.current@ as int, generation__b1),
        forall|i: int| #![trigger self.m@[i]] $it.current@ - 1 <= i < self.m@.len() ==> self.m@[i] == om[i],
    ensures $it.left() == 0,
    decreases $it.left(),
@body 0
    let ghost cur = $it0.current@ as int;
    proof {
        broadcast use lemma_ent_push;
        if $it0.left() > 0 {
            lemma_cnt_take(om, cur - 1);
            lemma_cnt_take_le(om, cur);
        }
    }
@after 0
    proof { assert(om.take(om.len() as int) =~= om); }
