@@module ord_tree ord/ord_arena.rs
@@text props=O01,O02,O03,O04
use vstd::imap::*;

/// The tree part of a node
pub struct TN<I> {
    pub back: Option<I>,
    pub l: Option<I>,
    pub r: Option<I>,
    pub rank: int,
}

/// The positions below a node: from `lo` to before `hi`, its own is `at`
pub struct IV {
    pub lo: int,
    pub at: int,
    pub hi: int,
}

pub open spec fn child<I>(x: TN<I>, d: bool) -> Option<I> {
    if d { x.r } else { x.l }
}

/// the left child of `p` has the positions before it, and knows it as its parent
pub open spec fn n_l<I>(t: IMap<I, TN<I>>, g: IMap<I, IV>, p: I) -> bool {
    match t[p].l {
        None => g[p].lo == g[p].at,
        Some(c) => g[p].lo < g[p].at && t.dom().contains(c) && t[c].back == Some(p) && g[c].lo == g[p].lo && g[c].hi == g[p].at,
    }
}

/// the right child of `p` has the positions after it, and knows it as its parent
pub open spec fn n_r<I>(t: IMap<I, TN<I>>, g: IMap<I, IV>, p: I) -> bool {
    match t[p].r {
        None => g[p].hi == g[p].at + 1,
        Some(c) => g[p].at + 1 < g[p].hi && t.dom().contains(c) && t[c].back == Some(p) && g[c].lo == g[p].at + 1 && g[c].hi == g[p].hi,
    }
}

/// the parent of `p` knows it as a child, or `p` is the root
pub open spec fn n_b<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, n: int, p: I) -> bool {
    match t[p].back {
        None => p == root && g[p].lo == 0 && g[p].hi == n,
        Some(b) => p != root && t.dom().contains(b) && (t[b].l == Some(p) || t[b].r == Some(p)),
    }
}

pub open spec fn n_i<I>(g: IMap<I, IV>, ord: Seq<I>, p: I) -> bool {
    0 <= g[p].lo <= g[p].at < g[p].hi <= ord.len() && ord[g[p].at] == p
}

/// `p` is a node of a search tree
pub open spec fn n_ok<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, p: I) -> bool {
    n_i(g, ord, p) && n_l(t, g, p) && n_r(t, g, p) && n_b(t, root, g, ord.len() as int, p)
}

/// position `k` of the order holds a node
pub open spec fn k_ok<I>(t: IMap<I, TN<I>>, g: IMap<I, IV>, ord: Seq<I>, k: int) -> bool {
    t.dom().contains(ord[k]) && g[ord[k]].at == k
}

/// The nodes form a search tree for the order `ord`
pub open spec fn t_ok<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>) -> bool {
    &&& forall|p: I| t.dom().contains(p) ==> #[trigger] n_ok(t, root, g, ord, p)
    &&& forall|k: int| 0 <= k < ord.len() ==> #[trigger] k_ok(t, g, ord, k)
    &&& ord.len() > 0 ==> t.dom().contains(root) && t[root].back is None
}

pub open spec fn rk<I>(t: IMap<I, TN<I>>, o: Option<I>) -> int {
    match o {
        None => 0,
        Some(c) => t[c].rank,
    }
}

/// The rank rules
pub open spec fn r_ok<I>(t: IMap<I, TN<I>>, p: I) -> bool {
    let x = t[p];
    let (a, b) = (rk(t, x.l), rk(t, x.r));
    &&& a + 1 <= x.rank <= a + 2
    &&& b + 1 <= x.rank <= b + 2
    &&& x.l is None && x.r is None ==> x.rank == 1
}

pub open spec fn r_all<I>(t: IMap<I, TN<I>>) -> bool {
    forall|p: I| t.dom().contains(p) ==> #[trigger] r_ok(t, p)
}

pub open spec fn r_except<I>(t: IMap<I, TN<I>>, e: I) -> bool {
    forall|p: I| t.dom().contains(p) && p != e ==> #[trigger] r_ok(t, p)
}

pub proof fn lemma_n<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, p: I)
    requires t_ok(t, root, g, ord), t.dom().contains(p),
    ensures n_ok(t, root, g, ord, p),
{
}

/// what `t_ok` says about one node and its neighborhood
pub proof fn lemma_node<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, p: I)
    requires t_ok(t, root, g, ord), t.dom().contains(p),
    ensures n_ok(t, root, g, ord, p),
        t[p].l is Some ==> n_ok(t, root, g, ord, t[p].l.unwrap()) && t[p].l != Some(p) && t[p].l != Some(root) && t[p].l != t[p].r,
        t[p].r is Some ==> n_ok(t, root, g, ord, t[p].r.unwrap()) && t[p].r != Some(p) && t[p].r != Some(root),
        t[p].back is Some ==> n_ok(t, root, g, ord, t[p].back.unwrap()) && t[p].back != Some(p) && t[p].back != t[p].l && t[p].back != t[p].r
            && ({
                let b = t[p].back.unwrap();
                &&& g[b].lo <= g[p].lo && g[p].hi <= g[b].hi
                &&& t[b].l == Some(p) ==> t[b].r != Some(p) && g[p].lo == g[b].lo && g[p].hi == g[b].at
                &&& t[b].r == Some(p) ==> t[b].l != Some(p) && g[p].lo == g[b].at + 1 && g[p].hi == g[b].hi
            }),
{
    assert(n_ok(t, root, g, ord, p));
    if let Some(c) = t[p].l { assert(n_ok(t, root, g, ord, c)); }
    if let Some(c) = t[p].r { assert(n_ok(t, root, g, ord, c)); }
    if let Some(b) = t[p].back { assert(n_ok(t, root, g, ord, b)); }
}

/// changing ranks only does not matter for the structure
pub open spec fn same_tree<I>(t: IMap<I, TN<I>>, u: IMap<I, TN<I>>) -> bool {
    &&& t.dom() == u.dom()
    &&& forall|p: I| #![trigger u[p]] t.dom().contains(p) ==> u[p].back == t[p].back && u[p].l == t[p].l && u[p].r == t[p].r
}

pub proof fn lemma_same_tree<I>(t: IMap<I, TN<I>>, u: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>)
    requires t_ok(t, root, g, ord), same_tree(t, u),
    ensures t_ok(u, root, g, ord),
{
    assert forall|p: I| u.dom().contains(p) implies #[trigger] n_ok(u, root, g, ord, p) by {
        lemma_node(t, root, g, ord, p);
        let x = u[p];
        if let Some(c) = x.l { let y = u[c]; }
        if let Some(c) = x.r { let y = u[c]; }
        if let Some(c) = x.back { let y = u[c]; }
    }
    assert forall|k: int| 0 <= k < ord.len() implies #[trigger] k_ok(u, g, ord, k) by {
        assert(k_ok(t, g, ord, k));
    }
    if ord.len() > 0 { let y = u[root]; }
}

/// `u`, a child of `w`, rotated above it
pub open spec fn rot<I>(t: IMap<I, TN<I>>, u: I, w: I) -> IMap<I, TN<I>> {
    let xu = t[u];
    let xw = t[w];
    let d = xw.r == Some(u);
    let s = if d { xu.l } else { xu.r };
    IMap::new(|q: I| t.dom().contains(q), |q: I| {
        let y = t[q];
        if q == u {
            TN { back: xw.back, l: if d { Some(w) } else { xu.l }, r: if d { xu.r } else { Some(w) }, rank: xu.rank }
        } else if q == w {
            TN { back: Some(u), l: if d { xw.l } else { s }, r: if d { s } else { xw.r }, rank: xw.rank }
        } else if s == Some(q) {
            TN { back: Some(w), l: y.l, r: y.r, rank: y.rank }
        } else if xw.back == Some(q) {
            TN { back: y.back, l: if y.r == Some(w) { y.l } else { Some(u) }, r: if y.r == Some(w) { Some(u) } else { y.r }, rank: y.rank }
        } else {
            y
        }
    })
}

pub open spec fn rotg<I>(t: IMap<I, TN<I>>, g: IMap<I, IV>, u: I, w: I) -> IMap<I, IV> {
    let d = t[w].r == Some(u);
    g.insert(u, IV { lo: g[w].lo, at: g[u].at, hi: g[w].hi })
        .insert(w, if d { IV { lo: g[w].lo, at: g[w].at, hi: g[u].at } } else { IV { lo: g[u].at + 1, at: g[w].at, hi: g[w].hi } })
}

pub open spec fn rot_root<I>(t: IMap<I, TN<I>>, root: I, u: I, w: I) -> I {
    if t[w].back is None { u } else { root }
}

pub proof fn lemma_t_ok<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>)
    requires forall|p: I| t.dom().contains(p) ==> #[trigger] n_ok(t, root, g, ord, p),
        forall|k: int| 0 <= k < ord.len() ==> #[trigger] k_ok(t, g, ord, k),
        ord.len() > 0 ==> t.dom().contains(root) && t[root].back is None,
    ensures t_ok(t, root, g, ord),
{
}

pub proof fn lemma_k<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, k: int)
    requires t_ok(t, root, g, ord), 0 <= k < ord.len(),
    ensures k_ok(t, g, ord, k),
{
}

pub proof fn lemma_root<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>)
    requires t_ok(t, root, g, ord), ord.len() > 0,
    ensures t.dom().contains(root), t[root].back is None, g[root].lo == 0, g[root].hi == ord.len(),
{
    assert(n_ok(t, root, g, ord, root));
}

pub proof fn lemma_rot_l<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, u: I, w: I, p: I)
    requires t_ok(t, root, g, ord), t.dom().contains(w), t[w].l == Some(u) || t[w].r == Some(u), t.dom().contains(p),
    ensures n_l(rot(t, u, w), rotg(t, g, u, w), p),
{
    hide(t_ok);
    let d = t[w].r == Some(u);
    let s = if d { t[u].l } else { t[u].r };
    let b = t[w].back;
    let t2 = rot(t, u, w);
    let g2 = rotg(t, g, u, w);
    let root2 = rot_root(t, root, u, w);
    lemma_n(t, root, g, ord, w);
    lemma_n(t, root, g, ord, u);
    if let Some(q) = s { lemma_n(t, root, g, ord, q); }
    if let Some(q) = b { lemma_n(t, root, g, ord, q); }
    lemma_n(t, root, g, ord, p);
    if let Some(c) = t[p].l { lemma_n(t, root, g, ord, c); }
    if d {
        if p == u { assert(n_l(t2, g2, p)); }
        else if p == w { assert(n_l(t2, g2, p)); }
        else if s == Some(p) { assert(n_l(t2, g2, p)); }
        else if b == Some(p) { assert(n_l(t2, g2, p)); }
        else { assert(n_l(t2, g2, p)); }
    } else {
        if p == u { assert(n_l(t2, g2, p)); }
        else if p == w { assert(n_l(t2, g2, p)); }
        else if s == Some(p) { assert(n_l(t2, g2, p)); }
        else if b == Some(p) { assert(n_l(t2, g2, p)); }
        else { assert(n_l(t2, g2, p)); }
    }
}

pub proof fn lemma_rot_r<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, u: I, w: I, p: I)
    requires t_ok(t, root, g, ord), t.dom().contains(w), t[w].l == Some(u) || t[w].r == Some(u), t.dom().contains(p),
    ensures n_r(rot(t, u, w), rotg(t, g, u, w), p),
{
    hide(t_ok);
    let d = t[w].r == Some(u);
    let s = if d { t[u].l } else { t[u].r };
    let b = t[w].back;
    let t2 = rot(t, u, w);
    let g2 = rotg(t, g, u, w);
    let root2 = rot_root(t, root, u, w);
    lemma_n(t, root, g, ord, w);
    lemma_n(t, root, g, ord, u);
    if let Some(q) = s { lemma_n(t, root, g, ord, q); }
    if let Some(q) = b { lemma_n(t, root, g, ord, q); }
    lemma_n(t, root, g, ord, p);
    if let Some(c) = t[p].r { lemma_n(t, root, g, ord, c); }
    if d {
        if p == u { assert(n_r(t2, g2, p)); }
        else if p == w { assert(n_r(t2, g2, p)); }
        else if s == Some(p) { assert(n_r(t2, g2, p)); }
        else if b == Some(p) { assert(n_r(t2, g2, p)); }
        else { assert(n_r(t2, g2, p)); }
    } else {
        if p == u { assert(n_r(t2, g2, p)); }
        else if p == w { assert(n_r(t2, g2, p)); }
        else if s == Some(p) { assert(n_r(t2, g2, p)); }
        else if b == Some(p) { assert(n_r(t2, g2, p)); }
        else { assert(n_r(t2, g2, p)); }
    }
}

pub proof fn lemma_rot_b<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, u: I, w: I, p: I)
    requires t_ok(t, root, g, ord), t.dom().contains(w), t[w].l == Some(u) || t[w].r == Some(u), t.dom().contains(p),
    ensures n_b(rot(t, u, w), rot_root(t, root, u, w), rotg(t, g, u, w), ord.len() as int, p),
{
    hide(t_ok);
    let d = t[w].r == Some(u);
    let s = if d { t[u].l } else { t[u].r };
    let b = t[w].back;
    let t2 = rot(t, u, w);
    let g2 = rotg(t, g, u, w);
    let root2 = rot_root(t, root, u, w);
    lemma_n(t, root, g, ord, w);
    lemma_n(t, root, g, ord, u);
    if let Some(q) = s { lemma_n(t, root, g, ord, q); }
    if let Some(q) = b { lemma_n(t, root, g, ord, q); }
    lemma_n(t, root, g, ord, p);
    if let Some(c) = t[p].back { lemma_n(t, root, g, ord, c); }
    if d {
        if p == u { assert(n_b(t2, root2, g2, ord.len() as int, p)); }
        else if p == w { assert(n_b(t2, root2, g2, ord.len() as int, p)); }
        else if s == Some(p) { assert(n_b(t2, root2, g2, ord.len() as int, p)); }
        else if b == Some(p) { assert(n_b(t2, root2, g2, ord.len() as int, p)); }
        else { assert(n_b(t2, root2, g2, ord.len() as int, p)); }
    } else {
        if p == u { assert(n_b(t2, root2, g2, ord.len() as int, p)); }
        else if p == w { assert(n_b(t2, root2, g2, ord.len() as int, p)); }
        else if s == Some(p) { assert(n_b(t2, root2, g2, ord.len() as int, p)); }
        else if b == Some(p) { assert(n_b(t2, root2, g2, ord.len() as int, p)); }
        else { assert(n_b(t2, root2, g2, ord.len() as int, p)); }
    }
}

pub proof fn lemma_rot_at<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, u: I, w: I, p: I)
    requires t_ok(t, root, g, ord), t.dom().contains(w), t[w].l == Some(u) || t[w].r == Some(u), t.dom().contains(p),
    ensures n_ok(rot(t, u, w), rot_root(t, root, u, w), rotg(t, g, u, w), ord, p),
{
    hide(t_ok);
    let d = t[w].r == Some(u);
    let s = if d { t[u].l } else { t[u].r };
    let b = t[w].back;
    let t2 = rot(t, u, w);
    let g2 = rotg(t, g, u, w);
    let root2 = rot_root(t, root, u, w);
    lemma_n(t, root, g, ord, w);
    lemma_n(t, root, g, ord, u);
    if let Some(q) = s { lemma_n(t, root, g, ord, q); }
    if let Some(q) = b { lemma_n(t, root, g, ord, q); }
    lemma_n(t, root, g, ord, p);
    lemma_rot_l(t, root, g, ord, u, w, p);
    lemma_rot_r(t, root, g, ord, u, w, p);
    lemma_rot_b(t, root, g, ord, u, w, p);
    assert(n_i(g2, ord, p));
}

pub proof fn lemma_root_rot<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, u: I, w: I)
    requires t_ok(t, root, g, ord), ord.len() > 0, t.dom().contains(w), t[w].l == Some(u) || t[w].r == Some(u),
    ensures rot(t, u, w).dom().contains(rot_root(t, root, u, w)), rot(t, u, w)[rot_root(t, root, u, w)].back is None,
{
    hide(t_ok);
    lemma_root(t, root, g, ord);
    lemma_node(t, root, g, ord, w);
    lemma_node(t, root, g, ord, u);
    lemma_node(t, root, g, ord, root);
    let s = if t[w].r == Some(u) { t[u].l } else { t[u].r };
    if let Some(q) = s { lemma_node(t, root, g, ord, q); }
}

/// A rotation gives a search tree for the same order
pub proof fn lemma_rot<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, u: I, w: I)
    requires t_ok(t, root, g, ord), t.dom().contains(w), t[w].l == Some(u) || t[w].r == Some(u),
    ensures t_ok(rot(t, u, w), rot_root(t, root, u, w), rotg(t, g, u, w), ord), t.dom().contains(u), u != w,
        rot(t, u, w).dom() == t.dom(),
{
    hide(t_ok); hide(n_ok);
    let t2 = rot(t, u, w);
    let g2 = rotg(t, g, u, w);
    let root2 = rot_root(t, root, u, w);
    lemma_node(t, root, g, ord, w);
    assert(n_ok(t, root, g, ord, w) && t.dom().contains(u) && u != w) by { reveal(n_ok); }
    assert forall|p: I| t2.dom().contains(p) implies #[trigger] n_ok(t2, root2, g2, ord, p) by {
        lemma_rot_at(t, root, g, ord, u, w, p);
    }
    assert forall|k: int| 0 <= k < ord.len() implies #[trigger] k_ok(t2, g2, ord, k) by {
        lemma_k(t, root, g, ord, k);
    }
    if ord.len() > 0 { lemma_root(t, root, g, ord); lemma_root_rot(t, root, g, ord, u, w); }
    assert(t2.dom() =~= t.dom());
    lemma_t_ok(t2, root2, g2, ord);
}
/// `x` with its child in direction `d` replaced
pub open spec fn set_child<I>(x: TN<I>, d: bool, c: Option<I>) -> TN<I> {
    TN { back: x.back, l: if d { x.l } else { c }, r: if d { c } else { x.r }, rank: x.rank }
}

pub open spec fn leaf<I>(b: Option<I>) -> TN<I> {
    TN { back: b, l: None, r: None, rank: 1 }
}

pub open spec fn hang<I>(t: IMap<I, TN<I>>, b: I, d: bool, p: I) -> IMap<I, TN<I>> {
    t.insert(p, leaf(Some(b))).insert(b, set_child(t[b], d, Some(p)))
}

/// the position a node gets that is hung below `b`
pub open spec fn hang_at<I>(g: IMap<I, IV>, b: I, d: bool) -> int {
    if d { g[b].at + 1 } else { g[b].at }
}

pub open spec fn hangg<I>(g: IMap<I, IV>, b: I, d: bool, p: I) -> IMap<I, IV> {
    let k = hang_at(g, b, d);
    IMap::new(|q: I| true, |q: I| if q == p { IV { lo: k, at: k, hi: k + 1 } } else {
        let v = g[q];
        IV {
            lo: if v.lo > k || (d && v.lo == k) { v.lo + 1 } else { v.lo },
            at: if v.at >= k { v.at + 1 } else { v.at },
            hi: if v.hi > k || (d && v.hi == k) { v.hi + 1 } else { v.hi },
        }
    })
}

pub proof fn lemma_hang_at<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, b: I, d: bool, p: I, q: I)
    requires t_ok(t, root, g, ord), t.dom().contains(b), !t.dom().contains(p), child(t[b], d) is None,
        t.dom().contains(q) || q == p,
    ensures n_ok(hang(t, b, d, p), root, hangg(g, b, d, p), ord.insert(hang_at(g, b, d), p), q),
{
    hide(t_ok);
    let t2 = hang(t, b, d, p);
    let g2 = hangg(g, b, d, p);
    let k = hang_at(g, b, d);
    let ord2 = ord.insert(k, p);
    lemma_n(t, root, g, ord, b);
    if ord.len() > 0 { lemma_root(t, root, g, ord); }
    if q == p {
        assert(n_ok(t2, root, g2, ord2, q));
    } else {
        lemma_n(t, root, g, ord, q);
        if q == b {
            assert(n_ok(t2, root, g2, ord2, q));
        } else {
            assert(g[q].at != g[b].at);
            assert(t[b].back != Some(p) && t[q].l != Some(p) && t[q].r != Some(p) && t[q].back != Some(p));
            assert(n_ok(t2, root, g2, ord2, q));
        }
    }
}

/// A leaf hung below a node without a child there gives a search tree for the
/// order with the leaf inserted next to that node
pub proof fn lemma_hang<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, b: I, d: bool, p: I)
    requires t_ok(t, root, g, ord), t.dom().contains(b), !t.dom().contains(p), child(t[b], d) is None,
    ensures t_ok(hang(t, b, d, p), root, hangg(g, b, d, p), ord.insert(hang_at(g, b, d), p)),
        0 <= hang_at(g, b, d) <= ord.len(),
{
    hide(t_ok); hide(n_ok);
    let t2 = hang(t, b, d, p);
    let g2 = hangg(g, b, d, p);
    let k = hang_at(g, b, d);
    let ord2 = ord.insert(k, p);
    lemma_node(t, root, g, ord, b);
    assert(0 <= g[b].at < ord.len()) by { reveal(n_ok); }
    assert forall|q: I| t2.dom().contains(q) implies #[trigger] n_ok(t2, root, g2, ord2, q) by {
        lemma_hang_at(t, root, g, ord, b, d, p, q);
    }
    assert forall|j: int| 0 <= j < ord2.len() implies #[trigger] k_ok(t2, g2, ord2, j) by {
        if j < k { lemma_k(t, root, g, ord, j); } else if j > k { lemma_k(t, root, g, ord, j - 1); assert(ord2[j] == ord[j - 1]); }
    }
    lemma_root(t, root, g, ord);
    assert(t2.dom().contains(root));
    assert(p != root);
    if root == b { assert(t2[root] == set_child(t[b], d, Some(p))); } else { assert(t2[root] == t[root]); }
    assert(t2[root].back is None);
    lemma_t_ok(t2, root, g2, ord2);
}

/// the only node of a new tree
pub proof fn lemma_lone<I>(t: IMap<I, TN<I>>, p: I)
    requires t.dom().contains(p), t[p] == leaf::<I>(None), forall|q: I| #![trigger t.dom().contains(q)] t.dom().contains(q) ==> q == p,
    ensures t_ok(t, p, IMap::new(|q: I| true, |q: I| IV { lo: 0, at: 0, hi: 1 }), seq![p]), r_all(t),
{
}

// ---- removal

pub open spec fn relink<I>(x: TN<I>, from: I, to: Option<I>) -> TN<I> {
    if x.r == Some(from) { set_child(x, true, to) } else if x.l == Some(from) { set_child(x, false, to) } else { x }
}

pub open spec fn with_back<I>(x: TN<I>, b: Option<I>) -> TN<I> {
    TN { back: b, l: x.l, r: x.r, rank: x.rank }
}

/// without the leaf `d`
pub open spec fn cut<I>(t: IMap<I, TN<I>>, d: I) -> IMap<I, TN<I>> {
    IMap::new(|q: I| t.dom().contains(q) && q != d, |q: I| relink(t[q], d, None))
}

/// positions without `k`, an interval that starts or ends at `k` keeps that
pub open spec fn cutg<I>(g: IMap<I, IV>, k: int) -> IMap<I, IV> {
    IMap::new(|q: I| true, |q: I| {
        let v = g[q];
        IV {
            lo: if v.lo > k { v.lo - 1 } else { v.lo },
            at: if v.at > k { v.at - 1 } else { v.at },
            hi: if v.hi > k { v.hi - 1 } else { v.hi },
        }
    })
}

/// without `d` that has only the right child `z`, which is a leaf and takes its place
pub open spec fn pull<I>(t: IMap<I, TN<I>>, d: I, z: I) -> IMap<I, TN<I>> {
    IMap::new(|q: I| t.dom().contains(q) && q != d, |q: I|
        if q == z { TN { back: t[d].back, l: None, r: None, rank: t[d].rank } } else { relink(t[q], d, Some(z)) })
}

pub open spec fn pullg<I>(g: IMap<I, IV>, k: int, z: I) -> IMap<I, IV> {
    cutg(g, k).insert(z, IV { lo: k, at: k, hi: k + 1 })
}

/// without `d`, whose place is taken by its predecessor `r`, whose place in turn
/// is taken by the left child of `r`
pub open spec fn lift<I>(t: IMap<I, TN<I>>, d: I, r: I) -> IMap<I, TN<I>> {
    let near = t[d].l == Some(r);
    let c = t[r].l;
    let y = t[r].back;
    IMap::new(|q: I| t.dom().contains(q) && q != d, |q: I|
        if q == r {
            TN { back: t[d].back, l: if near { c } else { t[d].l }, r: t[d].r, rank: t[d].rank }
        } else {
            let x0 = t[q];
            let x1 = if !near && y == Some(q) { set_child(x0, true, c) } else { x0 };
            let x2 = if !near && c == Some(q) { with_back(x1, y) } else { x1 };
            let x3 = if (!near && t[d].l == Some(q)) || t[d].r == Some(q) { with_back(x2, Some(r)) } else { x2 };
            relink(x3, d, Some(r))
        })
}

pub open spec fn liftg<I>(g: IMap<I, IV>, k: int, d: I, r: I) -> IMap<I, IV> {
    IMap::new(|q: I| true, |q: I| {
        let v = g[q];
        if q == r {
            IV { lo: g[d].lo, at: k - 1, hi: g[d].hi - 1 }
        } else {
            IV {
                lo: if v.lo > k { v.lo - 1 } else { v.lo },
                at: if v.at > k { v.at - 1 } else { v.at },
                hi: if v.hi >= k { v.hi - 1 } else { v.hi },
            }
        }
    })
}

pub proof fn lemma_cut_at<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, d: I, q: I)
    requires t_ok(t, root, g, ord), t.dom().contains(d), t[d].l is None, t[d].r is None, t[d].back is Some,
        t.dom().contains(q), q != d,
    ensures n_ok(cut(t, d), root, cutg(g, g[d].at), ord.remove(g[d].at), q),
{
    hide(t_ok);
    lemma_n(t, root, g, ord, d);
    lemma_n(t, root, g, ord, q);
    if let Some(c) = t[q].l { lemma_n(t, root, g, ord, c); }
    if let Some(c) = t[q].r { lemma_n(t, root, g, ord, c); }
    if let Some(c) = t[q].back { lemma_n(t, root, g, ord, c); }
    let ord2 = ord.remove(g[d].at);
    assert(g[q].at != g[d].at);
    assert(n_ok(cut(t, d), root, cutg(g, g[d].at), ord2, q));
}

pub proof fn lemma_cut<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, d: I)
    requires t_ok(t, root, g, ord), t.dom().contains(d), t[d].l is None, t[d].r is None, t[d].back is Some,
    ensures t_ok(cut(t, d), root, cutg(g, g[d].at), ord.remove(g[d].at)),
{
    hide(t_ok); hide(n_ok);
    let k = g[d].at;
    let (t2, g2, ord2) = (cut(t, d), cutg(g, k), ord.remove(k));
    lemma_node(t, root, g, ord, d);
    assert(0 <= k < ord.len() && d != root) by { reveal(n_ok); }
    assert forall|q: I| t2.dom().contains(q) implies #[trigger] n_ok(t2, root, g2, ord2, q) by {
        lemma_cut_at(t, root, g, ord, d, q);
    }
    assert forall|j: int| 0 <= j < ord2.len() implies #[trigger] k_ok(t2, g2, ord2, j) by {
        lemma_k(t, root, g, ord, k);
        if j < k { lemma_k(t, root, g, ord, j); } else { lemma_k(t, root, g, ord, j + 1); assert(ord2[j] == ord[j + 1]); }
        assert(ord[k] == d) by { reveal(n_ok); }
    }
    lemma_root(t, root, g, ord);
    lemma_t_ok(t2, root, g2, ord2);
}

pub open spec fn gone_root<I>(t: IMap<I, TN<I>>, root: I, d: I, r: I) -> I {
    if t[d].back is None { r } else { root }
}

pub proof fn lemma_pull_at<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, d: I, z: I, q: I)
    requires t_ok(t, root, g, ord), t.dom().contains(d), t[d].l is None, t[d].r == Some(z), t[z].l is None, t[z].r is None,
        t.dom().contains(q), q != d,
    ensures n_ok(pull(t, d, z), gone_root(t, root, d, z), pullg(g, g[d].at, z), ord.remove(g[d].at), q),
{
    hide(t_ok);
    lemma_n(t, root, g, ord, d);
    lemma_n(t, root, g, ord, z);
    lemma_n(t, root, g, ord, q);
    if let Some(c) = t[q].l { lemma_n(t, root, g, ord, c); }
    if let Some(c) = t[q].r { lemma_n(t, root, g, ord, c); }
    if let Some(c) = t[q].back { lemma_n(t, root, g, ord, c); }
    let ord2 = ord.remove(g[d].at);
    assert(g[q].at != g[d].at);
    if q == z {
        if let Some(b) = t[d].back { lemma_n(t, root, g, ord, b); }
        assert(n_ok(pull(t, d, z), gone_root(t, root, d, z), pullg(g, g[d].at, z), ord2, q));
    } else if t[d].back == Some(q) {
        assert(n_ok(pull(t, d, z), gone_root(t, root, d, z), pullg(g, g[d].at, z), ord2, q));
    } else {
        assert(n_ok(pull(t, d, z), gone_root(t, root, d, z), pullg(g, g[d].at, z), ord2, q));
    }
}

pub proof fn lemma_pull<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, d: I, z: I)
    requires t_ok(t, root, g, ord), t.dom().contains(d), t[d].l is None, t[d].r == Some(z), t[z].l is None, t[z].r is None,
    ensures t_ok(pull(t, d, z), gone_root(t, root, d, z), pullg(g, g[d].at, z), ord.remove(g[d].at)),
{
    hide(t_ok); hide(n_ok);
    let k = g[d].at;
    let (t2, g2, ord2) = (pull(t, d, z), pullg(g, k, z), ord.remove(k));
    let root2 = gone_root(t, root, d, z);
    lemma_node(t, root, g, ord, d);
    assert(0 <= k < ord.len() && ord[k] == d && t.dom().contains(z) && z != d && g[z].at == k + 1 && ord[k + 1] == z) by { reveal(n_ok); }
    assert forall|q: I| t2.dom().contains(q) implies #[trigger] n_ok(t2, root2, g2, ord2, q) by {
        lemma_pull_at(t, root, g, ord, d, z, q);
    }
    assert forall|j: int| 0 <= j < ord2.len() implies #[trigger] k_ok(t2, g2, ord2, j) by {
        lemma_k(t, root, g, ord, k);
        if j < k { lemma_k(t, root, g, ord, j); } else { lemma_k(t, root, g, ord, j + 1); assert(ord2[j] == ord[j + 1]); }
    }
    lemma_root(t, root, g, ord);
    assert(t[d].back is None ==> d == root) by { reveal(n_ok); }
    assert(t[d].back is Some ==> d != root && z != root) by { reveal(n_ok); }
    lemma_t_ok(t2, root2, g2, ord2);
}

/// the node at a position below `q` has only positions below `q`
pub proof fn lemma_within<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, q: I, j: int)
    requires t_ok(t, root, g, ord), t.dom().contains(q), g[q].lo <= j < g[q].hi,
    ensures t.dom().contains(ord[j]), g[q].lo <= g[ord[j]].lo, g[ord[j]].hi <= g[q].hi, g[ord[j]].at == j, 0 <= j < ord.len(),
    decreases g[q].hi - g[q].lo,
{
    hide(t_ok);
    lemma_node(t, root, g, ord, q);
    if j < g[q].at {
        lemma_within(t, root, g, ord, t[q].l.unwrap(), j);
    } else if j > g[q].at {
        lemma_within(t, root, g, ord, t[q].r.unwrap(), j);
    }
}

/// the predecessor of `d`, when `d` has a left child
pub proof fn lemma_pred<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, d: I, r: I)
    requires t_ok(t, root, g, ord), t.dom().contains(d), t[d].l is Some, r == ord[g[d].at - 1],
    ensures t.dom().contains(r), r != d, t[r].r is None, g[r].at == g[d].at - 1, g[r].hi == g[d].at, g[d].lo <= g[r].lo,
        t[r].back is Some, t.dom().contains(t[r].back.unwrap()),
        t[d].l != Some(r) ==> t[r].back != Some(d) && t[t[r].back.unwrap()].r == Some(r) && t[t[r].back.unwrap()].l != Some(r),
        t[d].l == Some(r) ==> t[r].back == Some(d),
        0 < g[d].at < ord.len(), ord[g[d].at] == d, r != root,
        t[r].l is Some ==> t.dom().contains(t[r].l.unwrap()) && t[t[r].l.unwrap()].back == Some(r) && g[t[r].l.unwrap()].hi == g[r].at && g[t[r].l.unwrap()].lo == g[r].lo,
        t[r].l is None ==> g[r].lo == g[r].at,
        t[r].back.unwrap() != d ==> g[t[r].back.unwrap()].hi == g[d].at && g[t[r].back.unwrap()].at + 1 == g[r].lo,
{
    hide(t_ok);
    lemma_node(t, root, g, ord, d);
    let k = g[d].at;
    lemma_within(t, root, g, ord, t[d].l.unwrap(), k - 1);
    lemma_node(t, root, g, ord, r);
    if let Some(c) = t[r].r {
        lemma_within(t, root, g, ord, c, k);
    }
    let b = t[r].back.unwrap();
    if b == d {
    } else {
        lemma_node(t, root, g, ord, b);
        if t[b].l == Some(r) {
            assert(g[b].at == k);
        }
    }
}

pub proof fn lemma_lift_l<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, d: I, r: I, q: I)
    requires t_ok(t, root, g, ord), t.dom().contains(d), t[d].l is Some, r == ord[g[d].at - 1],
        t.dom().contains(q), q != d,
    ensures n_l(lift(t, d, r), liftg(g, g[d].at, d, r), q),
{
    hide(t_ok);
    let k = g[d].at;
    let near = t[d].l == Some(r);
    let (t2, g2, root2) = (lift(t, d, r), liftg(g, k, d, r), gone_root(t, root, d, r));
    lemma_pred(t, root, g, ord, d, r);
    lemma_n(t, root, g, ord, d);
    lemma_n(t, root, g, ord, r);
    lemma_n(t, root, g, ord, q);
    let y = t[r].back.unwrap();
    if !near { lemma_n(t, root, g, ord, y); }
    if let Some(c) = t[r].l { lemma_n(t, root, g, ord, c); }
    if let Some(c) = t[q].l { lemma_n(t, root, g, ord, c); }
    if let Some(c) = t[d].l { lemma_n(t, root, g, ord, c); }
    assert(g[q].at != k);
    assert(q != r ==> g[q].at != k - 1);
    if q == r {
        if near { assert(n_l(t2, g2, q)); } else { assert(n_l(t2, g2, q)); }
    } else if !near && y == q {
        if t[d].l == Some(y) { assert(n_l(t2, g2, q)); } else { assert(n_l(t2, g2, q)); }
    } else if t[r].l == Some(q) {
        if near { assert(n_l(t2, g2, q)); } else { assert(n_l(t2, g2, q)); }
    } else if t[d].back == Some(q) {
        assert(n_l(t2, g2, q));
    } else if t[d].l == Some(q) {
        assert(n_l(t2, g2, q));
    } else if t[d].r == Some(q) {
        assert(n_l(t2, g2, q));
    } else {
        assert(n_l(t2, g2, q));
    }
}

pub proof fn lemma_lift_r<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, d: I, r: I, q: I)
    requires t_ok(t, root, g, ord), t.dom().contains(d), t[d].l is Some, r == ord[g[d].at - 1],
        t.dom().contains(q), q != d,
    ensures n_r(lift(t, d, r), liftg(g, g[d].at, d, r), q),
{
    hide(t_ok);
    let k = g[d].at;
    let near = t[d].l == Some(r);
    let (t2, g2, root2) = (lift(t, d, r), liftg(g, k, d, r), gone_root(t, root, d, r));
    lemma_pred(t, root, g, ord, d, r);
    lemma_n(t, root, g, ord, d);
    lemma_n(t, root, g, ord, r);
    lemma_n(t, root, g, ord, q);
    let y = t[r].back.unwrap();
    if !near { lemma_n(t, root, g, ord, y); }
    if let Some(c) = t[r].l { lemma_n(t, root, g, ord, c); }
    if let Some(c) = t[q].r { lemma_n(t, root, g, ord, c); }
    if let Some(c) = t[d].r { lemma_n(t, root, g, ord, c); }
    assert(g[q].at != k);
    assert(q != r ==> g[q].at != k - 1);
    if q == r {
        if near { assert(n_r(t2, g2, q)); } else { assert(n_r(t2, g2, q)); }
    } else if !near && y == q {
        if t[d].l == Some(y) { assert(n_r(t2, g2, q)); } else { assert(n_r(t2, g2, q)); }
    } else if t[r].l == Some(q) {
        if near { assert(n_r(t2, g2, q)); } else { assert(n_r(t2, g2, q)); }
    } else if t[d].back == Some(q) {
        assert(n_r(t2, g2, q));
    } else if t[d].l == Some(q) {
        assert(n_r(t2, g2, q));
    } else if t[d].r == Some(q) {
        assert(n_r(t2, g2, q));
    } else {
        assert(n_r(t2, g2, q));
    }
}

pub proof fn lemma_lift_b<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, d: I, r: I, q: I)
    requires t_ok(t, root, g, ord), t.dom().contains(d), t[d].l is Some, r == ord[g[d].at - 1],
        t.dom().contains(q), q != d,
    ensures n_b(lift(t, d, r), gone_root(t, root, d, r), liftg(g, g[d].at, d, r), ord.len() - 1, q),
{
    hide(t_ok);
    let k = g[d].at;
    let near = t[d].l == Some(r);
    let (t2, g2, root2) = (lift(t, d, r), liftg(g, k, d, r), gone_root(t, root, d, r));
    lemma_pred(t, root, g, ord, d, r);
    lemma_n(t, root, g, ord, d);
    lemma_n(t, root, g, ord, r);
    lemma_n(t, root, g, ord, q);
    let y = t[r].back.unwrap();
    if !near { lemma_n(t, root, g, ord, y); }
    if let Some(c) = t[r].l { lemma_n(t, root, g, ord, c); }
    assert(g[q].at != k);
    assert(q != r ==> g[q].at != k - 1);
    if let Some(b) = t[d].back { lemma_n(t, root, g, ord, b); }
    if let Some(b) = t[q].back { lemma_n(t, root, g, ord, b); }
    if q == r {
        if near { assert(n_b(t2, root2, g2, ord.len() - 1, q)); } else { assert(n_b(t2, root2, g2, ord.len() - 1, q)); }
    } else if !near && y == q {
        if t[d].l == Some(y) { assert(n_b(t2, root2, g2, ord.len() - 1, q)); } else { assert(n_b(t2, root2, g2, ord.len() - 1, q)); }
    } else if t[r].l == Some(q) {
        if near { assert(n_b(t2, root2, g2, ord.len() - 1, q)); } else { assert(n_b(t2, root2, g2, ord.len() - 1, q)); }
    } else if t[d].back == Some(q) {
        assert(n_b(t2, root2, g2, ord.len() - 1, q));
    } else if t[d].l == Some(q) {
        assert(n_b(t2, root2, g2, ord.len() - 1, q));
    } else if t[d].r == Some(q) {
        assert(n_b(t2, root2, g2, ord.len() - 1, q));
    } else {
        assert(n_b(t2, root2, g2, ord.len() - 1, q));
    }
}

pub proof fn lemma_lift_at<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, d: I, r: I, q: I)
    requires t_ok(t, root, g, ord), t.dom().contains(d), t[d].l is Some, r == ord[g[d].at - 1],
        t.dom().contains(q), q != d,
    ensures n_ok(lift(t, d, r), gone_root(t, root, d, r), liftg(g, g[d].at, d, r), ord.remove(g[d].at), q),
{
    hide(t_ok);
    let k = g[d].at;
    let near = t[d].l == Some(r);
    let (t2, g2, root2) = (lift(t, d, r), liftg(g, k, d, r), gone_root(t, root, d, r));
    lemma_pred(t, root, g, ord, d, r);
    lemma_n(t, root, g, ord, d);
    lemma_n(t, root, g, ord, r);
    lemma_n(t, root, g, ord, q);
    let y = t[r].back.unwrap();
    if !near { lemma_n(t, root, g, ord, y); }
    if let Some(c) = t[r].l { lemma_n(t, root, g, ord, c); }
    assert(g[q].at != k);
    assert(q != r ==> g[q].at != k - 1);
    lemma_lift_l(t, root, g, ord, d, r, q);
    lemma_lift_r(t, root, g, ord, d, r, q);
    lemma_lift_b(t, root, g, ord, d, r, q);
    let ord2 = ord.remove(k);
    assert(ord2.len() == ord.len() - 1);
    assert(n_i(g2, ord2, q));
}

pub proof fn lemma_lift<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, d: I, r: I)
    requires t_ok(t, root, g, ord), t.dom().contains(d), t[d].l is Some, r == ord[g[d].at - 1],
    ensures t_ok(lift(t, d, r), gone_root(t, root, d, r), liftg(g, g[d].at, d, r), ord.remove(g[d].at)),
{
    hide(t_ok); hide(n_ok);
    let k = g[d].at;
    let (t2, g2, ord2) = (lift(t, d, r), liftg(g, k, d, r), ord.remove(k));
    let root2 = gone_root(t, root, d, r);
    lemma_pred(t, root, g, ord, d, r);
    assert forall|q: I| t2.dom().contains(q) implies #[trigger] n_ok(t2, root2, g2, ord2, q) by {
        lemma_lift_at(t, root, g, ord, d, r, q);
    }
    assert forall|j: int| 0 <= j < ord2.len() implies #[trigger] k_ok(t2, g2, ord2, j) by {
        lemma_k(t, root, g, ord, k);
        if j < k { lemma_k(t, root, g, ord, j); } else { lemma_k(t, root, g, ord, j + 1); assert(ord2[j] == ord[j + 1]); }
    }
    lemma_root(t, root, g, ord);
    lemma_node(t, root, g, ord, d);
    assert(t[d].back is None ==> d == root) by { reveal(n_ok); }
    assert(t[d].back is Some ==> d != root && t[d].l != Some(root) && t[d].r != Some(root)) by { reveal(n_ok); }
    assert(t[r].l != Some(root)) by { lemma_node(t, root, g, ord, r); reveal(n_ok); }
    lemma_t_ok(t2, root2, g2, ord2);
}
// ---- ranks

pub open spec fn p2(e: int) -> int
    decreases e,
{
    if e <= 0 { 1 } else { 2 * p2(e - 1) }
}

pub proof fn lemma_p2_mono(a: int, b: int)
    requires a <= b,
    ensures 1 <= p2(a) <= p2(b),
    decreases b, b - a,
{
    if b > 0 {
        if a < b { lemma_p2_mono(a, b - 1); } else { lemma_p2_mono(a - 1, b - 1); }
    }
}

pub proof fn lemma_p2_64()
    ensures p2(64) == 0x1_0000_0000_0000_0000int, p2(65) == 0x2_0000_0000_0000_0000int,
{
    assert(p2(64) == 0x1_0000_0000_0000_0000int) by (compute);
    assert(p2(65) == 0x2_0000_0000_0000_0000int) by (compute);
}

/// a tree whose ranks are right, except for that of `e` which is not in the
/// tree below `p`, has exponentially many nodes below `p`
pub proof fn lemma_rank_size<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, e: I, p: I)
    requires t_ok(t, root, g, ord), r_except(t, e), t.dom().contains(p), !(g[p].lo <= g[e].at < g[p].hi) || r_ok(t, e),
    ensures p2((t[p].rank + 1) / 2) <= g[p].hi - g[p].lo + 1, t[p].rank >= 1,
    decreases g[p].hi - g[p].lo,
{
    hide(t_ok);
    lemma_n(t, root, g, ord, p);
    assert(r_ok(t, p));
    let x = t[p];
    let h = (x.rank + 1) / 2;
    let (a, b) = (rk(t, x.l), rk(t, x.r));
    assert((x.rank - 2 + 1) / 2 == h - 1);
    if let Some(c) = x.l { lemma_n(t, root, g, ord, c); lemma_rank_size(t, root, g, ord, e, c); }
    if let Some(c) = x.r { lemma_n(t, root, g, ord, c); lemma_rank_size(t, root, g, ord, e, c); }
    lemma_p2_mono(h - 1, (a + 1) / 2);
    lemma_p2_mono(h - 1, (b + 1) / 2);
}

/// ranks stay far from the limit of their type
pub proof fn lemma_rank_small<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, e: I, p: I)
    requires t_ok(t, root, g, ord), r_except(t, e), t.dom().contains(p), !(g[p].lo <= g[e].at < g[p].hi) || r_ok(t, e), ord.len() <= usize::MAX,
    ensures 1 <= t[p].rank <= 128,
{
    lemma_rank_size(t, root, g, ord, e, p);
    lemma_n(t, root, g, ord, p);
    lemma_p2_64();
    if t[p].rank > 128 { lemma_p2_mono(65, (t[p].rank + 1) / 2); }
}

pub open spec fn set_rank<I>(t: IMap<I, TN<I>>, p: I, r: int) -> IMap<I, TN<I>> {
    t.insert(p, TN { back: t[p].back, l: t[p].l, r: t[p].r, rank: r })
}

pub proof fn lemma_set_rank<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, p: I, r: int)
    requires t_ok(t, root, g, ord), t.dom().contains(p),
    ensures t_ok(set_rank(t, p, r), root, g, ord), set_rank(t, p, r).dom() == t.dom(),
{
    let u = set_rank(t, p, r);
    assert(u.dom() =~= t.dom());
    lemma_same_tree(t, u, root, g, ord);
}

/// the other child of `p`
pub open spec fn sib<I>(t: IMap<I, TN<I>>, p: I, c: Option<I>) -> Option<I> {
    if t[p].r == c { t[p].l } else { t[p].r }
}

pub open spec fn is_child<I>(t: IMap<I, TN<I>>, p: I, c: Option<I>) -> bool {
    t[p].l == c || t[p].r == c
}

/// `p1` below `p2` may have the same rank as it, all other ranks are right
pub open spec fn ins_inv<I>(t: IMap<I, TN<I>>, p0: I, p1: I, p2: I) -> bool {
    let rank1 = t[p1].rank;
    let rank2 = t[p2].rank;
    &&& t.dom().contains(p0) && t.dom().contains(p1) && t.dom().contains(p2)
    &&& is_child(t, p1, Some(p0)) && is_child(t, p2, Some(p1))
    &&& rank1 == t[p0].rank + 1 && rk(t, sib(t, p1, Some(p0))) == rank1 - 2
    &&& rank1 <= rank2 <= rank1 + 1
    &&& rk(t, sib(t, p2, Some(p1))) + 1 <= rank2 <= rk(t, sib(t, p2, Some(p1))) + 2
    &&& r_except(t, p2)
}

pub proof fn lemma_ins_done<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, p0: I, p1: I, p2: I)
    requires t_ok(t, root, g, ord), ins_inv(t, p0, p1, p2), t[p1].rank < t[p2].rank,
    ensures r_all(t),
{
    hide(t_ok);
    lemma_n(t, root, g, ord, p2);
    assert forall|q: I| t.dom().contains(q) implies #[trigger] r_ok(t, q) by {}
}

pub proof fn lemma_ins_promote<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, p0: I, p1: I, p2: I)
    requires t_ok(t, root, g, ord), ins_inv(t, p0, p1, p2), t[p1].rank == t[p2].rank, rk(t, sib(t, p2, Some(p1))) + 1 == t[p2].rank,
    ensures t[p2].back is None ==> r_all(set_rank(t, p2, t[p1].rank + 1)),
        t[p2].back is Some ==> ins_inv(set_rank(t, p2, t[p1].rank + 1), p1, p2, t[p2].back.unwrap()),
{
    hide(t_ok);
    let u = set_rank(t, p2, t[p1].rank + 1);
    lemma_n(t, root, g, ord, p1);
    lemma_n(t, root, g, ord, p2);
    if let Some(c) = sib(t, p2, Some(p1)) { lemma_n(t, root, g, ord, c); }
    if let Some(p3) = t[p2].back { lemma_n(t, root, g, ord, p3); assert(r_ok(t, p3)); }
    assert forall|q: I| u.dom().contains(q) && t[p2].back != Some(q) implies #[trigger] r_ok(u, q) by {
        lemma_n(t, root, g, ord, q);
        if q != p2 { assert(r_ok(t, q)); }
    }
}

/// the same edge direction twice
pub open spec fn straight<I>(t: IMap<I, TN<I>>, p0: I, p1: I, p2: I) -> bool {
    (t[p1].r == Some(p0)) == (t[p2].r == Some(p1))
}

pub proof fn lemma_ins_rot1<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, p0: I, p1: I, p2: I)
    requires t_ok(t, root, g, ord), ins_inv(t, p0, p1, p2), t[p1].rank == t[p2].rank, rk(t, sib(t, p2, Some(p1))) + 1 != t[p2].rank,
        straight(t, p0, p1, p2),
    ensures r_all(set_rank(rot(t, p1, p2), p2, t[p0].rank)),
{
    hide(t_ok);
    let t1 = rot(t, p1, p2);
    let u = set_rank(t1, p2, t[p0].rank);
    let s0 = sib(t, p1, Some(p0));
    lemma_n(t, root, g, ord, p1);
    lemma_n(t, root, g, ord, p2);
    lemma_n(t, root, g, ord, p0);
    if let Some(c) = sib(t, p2, Some(p1)) { lemma_n(t, root, g, ord, c); }
    if let Some(c) = s0 { lemma_n(t, root, g, ord, c); }
    if let Some(p3) = t[p2].back { lemma_n(t, root, g, ord, p3); assert(r_ok(t, p3)); }
    assert(r_ok(t, p1)); assert(r_ok(t, p0));
    assert forall|q: I| u.dom().contains(q) implies #[trigger] r_ok(u, q) by {
        lemma_n(t, root, g, ord, q);
        if let Some(c) = t[q].l { lemma_n(t, root, g, ord, c); }
        if let Some(c) = t[q].r { lemma_n(t, root, g, ord, c); }
        if q != p2 { assert(r_ok(t, q)); }
        if q == p1 { assert(r_ok(u, q)); } else if q == p2 { assert(r_ok(u, q)); } else if t[p2].back == Some(q) { assert(r_ok(u, q)); } else { assert(r_ok(u, q)); }
    }
}

pub open spec fn rot2<I>(t: IMap<I, TN<I>>, p0: I, p1: I, p2: I) -> IMap<I, TN<I>> {
    rot(rot(t, p0, p1), p0, p2)
}

pub open spec fn rot2_root<I>(t: IMap<I, TN<I>>, root: I, p0: I, p1: I, p2: I) -> I {
    if t[p2].back is None { p0 } else { root }
}

/// the result of the double rotation at its nodes
pub proof fn lemma_rot2_vals<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, p0: I, p1: I, p2: I)
    requires t_ok(t, root, g, ord), t.dom().contains(p2), is_child(t, p2, Some(p1)), is_child(t, p1, Some(p0)), !straight(t, p0, p1, p2),
    ensures ({
            let u = rot2(t, p0, p1, p2);
            let d = t[p2].r == Some(p1);
            // the subtrees of `p0` that go to `p2` and `p1`
            let a = if d { t[p0].l } else { t[p0].r };
            let b = if d { t[p0].r } else { t[p0].l };
            &&& t.dom().contains(p0) && t.dom().contains(p1)
            &&& p0 != p1 && p1 != p2 && p0 != p2
            &&& (a is Some ==> a != b)
            &&& a != Some(p0) && a != Some(p1) && a != Some(p2) && b != Some(p0) && b != Some(p1) && b != Some(p2)
            &&& t[p2].back != Some(p0) && t[p2].back != Some(p1) && t[p2].back != Some(p2)
            &&& (a is Some ==> t.dom().contains(a.unwrap()) && a != t[p2].back)
            &&& (b is Some ==> t.dom().contains(b.unwrap()) && b != t[p2].back)
            &&& u.dom() == t.dom()
            &&& u[p0] == TN { back: t[p2].back, l: Some(if d { p2 } else { p1 }), r: Some(if d { p1 } else { p2 }), rank: t[p0].rank }
            &&& u[p1] == TN { back: Some(p0), l: if d { b } else { t[p1].l }, r: if d { t[p1].r } else { b }, rank: t[p1].rank }
            &&& u[p2] == TN { back: Some(p0), l: if d { t[p2].l } else { a }, r: if d { a } else { t[p2].r }, rank: t[p2].rank }
            &&& forall|q: I| #![trigger u[q]] t.dom().contains(q) && q != p0 && q != p1 && q != p2 ==> u[q] == (
                if a == Some(q) { with_back(t[q], Some(p2)) }
                else if b == Some(q) { with_back(t[q], Some(p1)) }
                else if t[p2].back == Some(q) { if t[q].r == Some(p2) { set_child(t[q], true, Some(p0)) } else { set_child(t[q], false, Some(p0)) } }
                else { t[q] })
            &&& exists|g2: IMap<I, IV>| #[trigger] t_ok(u, rot2_root(t, root, p0, p1, p2), g2, ord) && same_at(g, g2)
        }),
{
    hide(t_ok);
    lemma_n(t, root, g, ord, p2);
    lemma_n(t, root, g, ord, p1);
    lemma_n(t, root, g, ord, p0);
    if let Some(c) = t[p0].l { lemma_n(t, root, g, ord, c); }
    if let Some(c) = t[p0].r { lemma_n(t, root, g, ord, c); }
    if let Some(c) = t[p2].back { lemma_n(t, root, g, ord, c); }
    let t1 = rot(t, p0, p1);
    lemma_rot(t, root, g, ord, p0, p1);
    let root1 = rot_root(t, root, p0, p1);
    let g1 = rotg(t, g, p0, p1);
    assert(root1 == root);
    assert(t1[p2] == set_child(t[p2], t[p2].r == Some(p1), Some(p0)));
    lemma_rot(t1, root1, g1, ord, p0, p2);
    let g2 = rotg(t1, g1, p0, p2);
    assert(same_at(g, g2));
    assert(t_ok(rot2(t, p0, p1, p2), rot2_root(t, root, p0, p1, p2), g2, ord));
}

/// the positions are the same
pub open spec fn same_at<I>(g: IMap<I, IV>, h: IMap<I, IV>) -> bool {
    forall|q: I| #![trigger h[q]] h[q].at == g[q].at
}

pub open spec fn ranks3<I>(t: IMap<I, TN<I>>, p0: I, r0: int, p1: I, r1: int, p2: I, r2: int) -> IMap<I, TN<I>> {
    set_rank(set_rank(set_rank(t, p0, r0), p1, r1), p2, r2)
}

pub proof fn lemma_ins_rot2<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, p0: I, p1: I, p2: I)
    requires t_ok(t, root, g, ord), ins_inv(t, p0, p1, p2), t[p1].rank == t[p2].rank, rk(t, sib(t, p2, Some(p1))) + 1 != t[p2].rank,
        !straight(t, p0, p1, p2),
    ensures r_all(ranks3(rot2(t, p0, p1, p2), p0, t[p1].rank, p1, t[p0].rank, p2, t[p0].rank)),
{
    hide(t_ok); hide(rot); hide(rot2);
    let t1 = rot2(t, p0, p1, p2);
    let u = ranks3(t1, p0, t[p1].rank, p1, t[p0].rank, p2, t[p0].rank);
    lemma_rot2_vals(t, root, g, ord, p0, p1, p2);
    lemma_n(t, root, g, ord, p1);
    lemma_n(t, root, g, ord, p2);
    lemma_n(t, root, g, ord, p0);
    if let Some(c) = sib(t, p2, Some(p1)) { lemma_n(t, root, g, ord, c); }
    if let Some(c) = sib(t, p1, Some(p0)) { lemma_n(t, root, g, ord, c); }
    if let Some(p3) = t[p2].back { lemma_n(t, root, g, ord, p3); assert(r_ok(t, p3)); }
    assert(r_ok(t, p1)); assert(r_ok(t, p0));
    assert forall|q: I| u.dom().contains(q) implies #[trigger] r_ok(u, q) by {
        lemma_n(t, root, g, ord, q);
        if let Some(c) = t[q].l { lemma_n(t, root, g, ord, c); }
        if let Some(c) = t[q].r { lemma_n(t, root, g, ord, c); }
        if q != p2 { assert(r_ok(t, q)); }
        if q == p0 { assert(r_ok(u, q)); } else if q == p1 { assert(r_ok(u, q)); } else if q == p2 { assert(r_ok(u, q)); } else if t[p2].back == Some(q) { assert(r_ok(u, q)); } else { assert(r_ok(u, q)); }
    }
}
// ---- ranks on removal

/// the child `c` of `p` lost one rank, which may be one too much
pub open spec fn rem_at<I>(t: IMap<I, TN<I>>, p: I, c: Option<I>) -> bool {
    &&& is_child(t, p, c) && (t[p].l is Some || t[p].r is Some)
    &&& rk(t, c) + 2 <= t[p].rank <= rk(t, c) + 3
    &&& rk(t, sib(t, p, c)) + 1 <= t[p].rank <= rk(t, sib(t, p, c)) + 2
}

/// all ranks are right except maybe that of `p1`, whose child `p0` lost one
/// rank, or that of the parent of `p1` if it is a leaf now and lost one rank
pub open spec fn rem_inv<I>(t: IMap<I, TN<I>>, p1: I, p0: Option<I>) -> bool {
    &&& t.dom().contains(p1)
    &&& if t[p1].l is None && t[p1].r is None {
        &&& p0 is None
        &&& t[p1].rank == 1
        &&& match t[p1].back {
            None => r_all(t),
            Some(p2) => t.dom().contains(p2) && r_except(t, p2) && rem_at(t, p2, Some(p1)),
        }
    } else {
        r_except(t, p1) && rem_at(t, p1, p0)
    }
}

pub proof fn lemma_rem_sib<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, p1: I, p0: Option<I>)
    requires t_ok(t, root, g, ord), rem_inv(t, p1, p0),
    ensures n_ok(t, root, g, ord, p1),
        sib(t, p1, p0) is None ==> t[p1].l is None && t[p1].r is None && p0 is None,
        sib(t, p1, p0) is Some ==> sib(t, p1, p0) != p0 && t.dom().contains(sib(t, p1, p0).unwrap()) && sib(t, p1, p0) != Some(p1) && !(t[p1].l is None && t[p1].r is None),
        p0 is Some ==> t.dom().contains(p0.unwrap()) && p0 != Some(p1),
{
    hide(t_ok);
    lemma_n(t, root, g, ord, p1);
    if let Some(c) = t[p1].l { lemma_n(t, root, g, ord, c); assert(r_ok(t, c)); lemma_rank_pos(t, root, g, ord, p1, c); }
    if let Some(c) = t[p1].r { lemma_n(t, root, g, ord, c); assert(r_ok(t, c)); lemma_rank_pos(t, root, g, ord, p1, c); }
}

/// a child of the only node with a wrong rank has a positive rank
pub proof fn lemma_rank_pos<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, e: I, c: I)
    requires t_ok(t, root, g, ord), t.dom().contains(e), r_except(t, e), t[e].l == Some(c) || t[e].r == Some(c),
    ensures t[c].rank >= 1,
{
    hide(t_ok);
    lemma_n(t, root, g, ord, e);
    lemma_rank_size(t, root, g, ord, e, c);
}

pub proof fn lemma_rem_done<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, p1: I, p0: Option<I>)
    requires t_ok(t, root, g, ord), rem_inv(t, p1, p0), sib(t, p1, p0) is Some, rk(t, p0) + 2 >= t[p1].rank,
    ensures r_all(t),
{
    hide(t_ok);
    lemma_rem_sib(t, root, g, ord, p1, p0);
    assert forall|q: I| t.dom().contains(q) implies #[trigger] r_ok(t, q) by {}
}

pub proof fn lemma_rem_leaf<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, p1: I, p0: Option<I>)
    requires t_ok(t, root, g, ord), rem_inv(t, p1, p0), sib(t, p1, p0) is None,
    ensures set_rank(t, p1, 1) == t,
        match t[p1].back { None => r_all(t), Some(p2) => rem_inv(t, p2, Some(p1)) },
{
    hide(t_ok);
    lemma_rem_sib(t, root, g, ord, p1, p0);
    assert(set_rank(t, p1, 1) =~= t);
}

pub proof fn lemma_rem_demote<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, p1: I, p0: Option<I>)
    requires t_ok(t, root, g, ord), rem_inv(t, p1, p0), sib(t, p1, p0) is Some, rk(t, p0) + 2 < t[p1].rank,
        rk(t, sib(t, p1, p0)) + 2 == t[p1].rank,
    ensures ({
        let u = set_rank(t, p1, rk(t, sib(t, p1, p0)) + 1);
        match t[p1].back { None => r_all(u), Some(p2) => rem_inv(u, p2, Some(p1)) }
    }),
{
    hide(t_ok);
    lemma_rem_sib(t, root, g, ord, p1, p0);
    let u = set_rank(t, p1, rk(t, sib(t, p1, p0)) + 1);
    if let Some(b) = t[p1].back { lemma_n(t, root, g, ord, b); assert(r_ok(t, b)); }
    assert forall|q: I| u.dom().contains(q) && t[p1].back != Some(q) implies #[trigger] r_ok(u, q) by {
        lemma_n(t, root, g, ord, q);
        if q != p1 { assert(r_ok(t, q)); }
    }
}

/// the children of the sibling, the one closer to `p0` first
pub open spec fn nephew<I>(t: IMap<I, TN<I>>, p1: I, p0: Option<I>, s: I, near: bool) -> Option<I> {
    let d01 = t[p1].r == p0;
    if d01 == near { t[s].r } else { t[s].l }
}

pub proof fn lemma_rem_demote2<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, p1: I, p0: Option<I>, s: I)
    requires t_ok(t, root, g, ord), rem_inv(t, p1, p0), sib(t, p1, p0) == Some(s), rk(t, p0) + 2 < t[p1].rank,
        t[s].rank + 2 != t[p1].rank, rk(t, nephew(t, p1, p0, s, true)) + 2 == t[s].rank, rk(t, nephew(t, p1, p0, s, false)) + 1 != t[s].rank,
    ensures ({
        let u = set_rank(set_rank(t, s, rk(t, p0) + 1), p1, rk(t, p0) + 2);
        match t[p1].back { None => r_all(u), Some(p2) => rem_inv(u, p2, Some(p1)) }
    }),
{
    hide(t_ok);
    lemma_rem_sib(t, root, g, ord, p1, p0);
    let u = set_rank(set_rank(t, s, rk(t, p0) + 1), p1, rk(t, p0) + 2);
    lemma_n(t, root, g, ord, s);
    assert(r_ok(t, s));
    if let Some(c) = p0 { lemma_n(t, root, g, ord, c); }
    if let Some(b) = t[p1].back { lemma_n(t, root, g, ord, b); assert(r_ok(t, b)); }
    assert forall|q: I| u.dom().contains(q) && t[p1].back != Some(q) implies #[trigger] r_ok(u, q) by {
        lemma_n(t, root, g, ord, q);
        if q != p1 { assert(r_ok(t, q)); }
        if q == p1 { assert(r_ok(u, q)); } else if q == s { assert(r_ok(u, q)); } else { assert(r_ok(u, q)); }
    }
}

pub proof fn lemma_rem_rot1<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, p1: I, p0: Option<I>, s: I)
    requires t_ok(t, root, g, ord), rem_inv(t, p1, p0), sib(t, p1, p0) == Some(s), rk(t, p0) + 2 < t[p1].rank,
        t[s].rank + 2 != t[p1].rank, rk(t, nephew(t, p1, p0, s, false)) + 1 == t[s].rank,
    ensures r_all(set_rank(set_rank(rot(t, s, p1), p1, rk(t, nephew(t, p1, p0, s, true)) + 1), s, t[p1].rank)),
{
    hide(t_ok);
    lemma_rem_sib(t, root, g, ord, p1, p0);
    let a = nephew(t, p1, p0, s, true);
    let t1 = rot(t, s, p1);
    let u = set_rank(set_rank(t1, p1, rk(t, a) + 1), s, t[p1].rank);
    lemma_n(t, root, g, ord, s);
    assert(r_ok(t, s));
    if let Some(c) = p0 { lemma_n(t, root, g, ord, c); }
    if let Some(c) = a { lemma_n(t, root, g, ord, c); lemma_rank_size(t, root, g, ord, p1, c); }
    if let Some(b) = t[p1].back { lemma_n(t, root, g, ord, b); assert(r_ok(t, b)); }
    assert forall|q: I| u.dom().contains(q) implies #[trigger] r_ok(u, q) by {
        lemma_n(t, root, g, ord, q);
        if let Some(c) = t[q].l { lemma_n(t, root, g, ord, c); }
        if let Some(c) = t[q].r { lemma_n(t, root, g, ord, c); }
        if q != p1 { assert(r_ok(t, q)); }
        if q == p1 { assert(r_ok(u, q)); } else if q == s { assert(r_ok(u, q)); } else if t[p1].back == Some(q) { assert(r_ok(u, q)); } else { assert(r_ok(u, q)); }
    }
}

pub proof fn lemma_rem_rot2<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, p1: I, p0: Option<I>, s: I)
    requires t_ok(t, root, g, ord), rem_inv(t, p1, p0), sib(t, p1, p0) == Some(s), rk(t, p0) + 2 < t[p1].rank,
        t[s].rank + 2 != t[p1].rank, rk(t, nephew(t, p1, p0, s, false)) + 1 != t[s].rank, rk(t, nephew(t, p1, p0, s, true)) + 2 != t[s].rank,
    ensures nephew(t, p1, p0, s, true) is Some,
        ({
            let a = nephew(t, p1, p0, s, true).unwrap();
            let r = t[a].rank;
            &&& t.dom().contains(a) && is_child(t, s, Some(a)) && is_child(t, p1, Some(s)) && !straight(t, a, s, p1)
            &&& r_all(ranks3(rot2(t, a, s, p1), a, t[p1].rank, s, r, p1, r))
        }),
{
    hide(t_ok); hide(rot); hide(rot2);
    lemma_rem_sib(t, root, g, ord, p1, p0);
    lemma_n(t, root, g, ord, s);
    assert(r_ok(t, s));
    if let Some(c) = p0 { lemma_n(t, root, g, ord, c); lemma_rank_size(t, root, g, ord, p1, c); }
    assert(nephew(t, p1, p0, s, true) is Some) by {
        if t[s].l is Some { lemma_n(t, root, g, ord, t[s].l.unwrap()); lemma_rank_size(t, root, g, ord, p1, t[s].l.unwrap()); }
        if t[s].r is Some { lemma_n(t, root, g, ord, t[s].r.unwrap()); lemma_rank_size(t, root, g, ord, p1, t[s].r.unwrap()); }
    }
    let a = nephew(t, p1, p0, s, true).unwrap();
    let r = t[a].rank;
    lemma_n(t, root, g, ord, a);
    assert(r_ok(t, a));
    assert(!straight(t, a, s, p1));
    lemma_rot2_vals(t, root, g, ord, a, s, p1);
    let u = ranks3(rot2(t, a, s, p1), a, t[p1].rank, s, r, p1, r);
    if let Some(c) = nephew(t, p1, p0, s, false) { lemma_n(t, root, g, ord, c); lemma_rank_size(t, root, g, ord, p1, c); }
    if let Some(c) = t[a].l { lemma_n(t, root, g, ord, c); lemma_rank_size(t, root, g, ord, p1, c); }
    if let Some(c) = t[a].r { lemma_n(t, root, g, ord, c); lemma_rank_size(t, root, g, ord, p1, c); }
    if let Some(b) = t[p1].back { lemma_n(t, root, g, ord, b); assert(r_ok(t, b)); }
    assert forall|q: I| u.dom().contains(q) implies #[trigger] r_ok(u, q) by {
        lemma_n(t, root, g, ord, q);
        if let Some(c) = t[q].l { lemma_n(t, root, g, ord, c); }
        if let Some(c) = t[q].r { lemma_n(t, root, g, ord, c); }
        if q != p1 { assert(r_ok(t, q)); }
        if q == p1 { assert(r_ok(u, q)); } else if q == s { assert(r_ok(u, q)); } else if q == a { assert(r_ok(u, q)); } else if t[p1].back == Some(q) { assert(r_ok(u, q)); } else { assert(r_ok(u, q)); }
    }
}

/// the tree after the structural part of a removal, before ranks are fixed:
/// `p1` is where to start
pub open spec fn cleared<I>(t: IMap<I, TN<I>>, p1: I) -> IMap<I, TN<I>> {
    if t[p1].l is None && t[p1].r is None { set_rank(t, p1, 1) } else { t }
}

pub proof fn lemma_cut_rank<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, d: I)
    requires t_ok(t, root, g, ord), r_all(t), t.dom().contains(d), t[d].l is None, t[d].r is None, t[d].back is Some,
    ensures rem_inv(cleared(cut(t, d), t[d].back.unwrap()), t[d].back.unwrap(), None),
{
    hide(t_ok);
    let p1 = t[d].back.unwrap();
    let t1 = cut(t, d);
    let u = cleared(t1, p1);
    lemma_n(t, root, g, ord, d);
    lemma_n(t, root, g, ord, p1);
    assert(r_ok(t, d)); assert(r_ok(t, p1));
    if let Some(c) = sib(t, p1, Some(d)) { lemma_n(t, root, g, ord, c); assert(r_ok(t, c)); }
    if let Some(b) = t[p1].back { lemma_n(t, root, g, ord, b); assert(r_ok(t, b)); }
    let e = if u[p1].l is None && u[p1].r is None { t[p1].back } else { Some(p1) };
    assert forall|q: I| u.dom().contains(q) && e != Some(q) implies #[trigger] r_ok(u, q) by {
        lemma_n(t, root, g, ord, q);
        if let Some(c) = t[q].l { lemma_n(t, root, g, ord, c); }
        if let Some(c) = t[q].r { lemma_n(t, root, g, ord, c); }
        assert(r_ok(t, q));
    }
}

pub proof fn lemma_pull_rank<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, d: I, z: I)
    requires t_ok(t, root, g, ord), r_all(t), t.dom().contains(d), t[d].l is None, t[d].r == Some(z),
    ensures t[d].rank == 2, t.dom().contains(z), t[z].l is None, t[z].r is None, t[z].rank == 1,
        rem_inv(cleared(pull(t, d, z), z), z, None),
{
    hide(t_ok);
    let t1 = pull(t, d, z);
    let u = cleared(t1, z);
    lemma_n(t, root, g, ord, d);
    lemma_n(t, root, g, ord, z);
    assert(r_ok(t, d)); assert(r_ok(t, z));
    if let Some(c) = t[z].l { assert(r_ok(t, c)); lemma_n(t, root, g, ord, c); lemma_rank_size(t, root, g, ord, d, c); }
    if let Some(c) = t[z].r { assert(r_ok(t, c)); lemma_n(t, root, g, ord, c); lemma_rank_size(t, root, g, ord, d, c); }
    lemma_rank_size(t, root, g, ord, d, z);
    if let Some(b) = t[d].back { lemma_n(t, root, g, ord, b); assert(r_ok(t, b)); }
    assert forall|q: I| u.dom().contains(q) && t[d].back != Some(q) implies #[trigger] r_ok(u, q) by {
        lemma_n(t, root, g, ord, q);
        if let Some(c) = t[q].l { lemma_n(t, root, g, ord, c); }
        if let Some(c) = t[q].r { lemma_n(t, root, g, ord, c); }
        assert(r_ok(t, q));
    }
}

/// where ranks may be wrong after `lift`
pub open spec fn lift_p1<I>(t: IMap<I, TN<I>>, d: I, r: I) -> I {
    match t[r].l {
        Some(x) => x,
        None => if t[d].l == Some(r) { r } else { t[r].back.unwrap() },
    }
}

/// a node without a right child has at most a leaf on its left
pub proof fn lemma_half<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, r: I)
    requires t_ok(t, root, g, ord), r_all(t), t.dom().contains(r), t[r].r is None,
    ensures match t[r].l {
            None => t[r].rank == 1,
            Some(x) => t[r].rank == 2 && t.dom().contains(x) && t[x].l is None && t[x].r is None && t[x].rank == 1,
        },
{
    hide(t_ok);
    lemma_n(t, root, g, ord, r);
    assert(r_ok(t, r));
    if let Some(x) = t[r].l {
        lemma_n(t, root, g, ord, x);
        assert(r_ok(t, x));
        lemma_rank_size(t, root, g, ord, r, x);
        if let Some(c) = t[x].l { lemma_n(t, root, g, ord, c); assert(r_ok(t, c)); lemma_rank_size(t, root, g, ord, r, c); }
        if let Some(c) = t[x].r { lemma_n(t, root, g, ord, c); assert(r_ok(t, c)); lemma_rank_size(t, root, g, ord, r, c); }
    }
}

pub proof fn lemma_lift_rank1<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, d: I, r: I)
    requires t_ok(t, root, g, ord), r_all(t), t.dom().contains(d), t[d].l is Some, r == ord[g[d].at - 1],
        t[r].l is Some,
    ensures rem_inv(cleared(lift(t, d, r), lift_p1(t, d, r)), lift_p1(t, d, r), None),
{
    hide(t_ok);
    let t1 = lift(t, d, r);
    let p1 = lift_p1(t, d, r);
    let u = cleared(t1, p1);
    lemma_pred(t, root, g, ord, d, r);
    lemma_half(t, root, g, ord, r);
    lemma_n(t, root, g, ord, d);
    lemma_n(t, root, g, ord, r);
    let y = t[r].back.unwrap();
    lemma_n(t, root, g, ord, y);
    assert(r_ok(t, d)); assert(r_ok(t, r)); assert(r_ok(t, y));
    if let Some(b) = t[d].back { lemma_n(t, root, g, ord, b); assert(r_ok(t, b)); }
    lemma_n(t, root, g, ord, t[r].l.unwrap());
    if let Some(b) = t[y].back { lemma_n(t, root, g, ord, b); assert(r_ok(t, b)); }
    if let Some(c) = t[y].l { lemma_n(t, root, g, ord, c); assert(r_ok(t, c)); }

    let e = if u[p1].l is None && u[p1].r is None { u[p1].back } else { Some(p1) };
    assert forall|q: I| u.dom().contains(q) && e != Some(q) implies #[trigger] r_ok(u, q) by {
        lemma_n(t, root, g, ord, q);
        if let Some(c) = t[q].l { lemma_n(t, root, g, ord, c); }
        if let Some(c) = t[q].r { lemma_n(t, root, g, ord, c); }
        assert(r_ok(t, q));
        if q == r { assert(r_ok(u, q)); } else if q == y { assert(r_ok(u, q)); } else if q == p1 { assert(r_ok(u, q)); } else if t[d].back == Some(q) { assert(r_ok(u, q)); } else { assert(r_ok(u, q)); }
    }
}

pub proof fn lemma_lift_rank2<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, d: I, r: I)
    requires t_ok(t, root, g, ord), r_all(t), t.dom().contains(d), t[d].l is Some, r == ord[g[d].at - 1],
        t[r].l is None, t[d].l == Some(r),
    ensures rem_inv(cleared(lift(t, d, r), lift_p1(t, d, r)), lift_p1(t, d, r), None),
{
    hide(t_ok);
    let t1 = lift(t, d, r);
    let p1 = lift_p1(t, d, r);
    let u = cleared(t1, p1);
    lemma_pred(t, root, g, ord, d, r);
    lemma_half(t, root, g, ord, r);
    lemma_n(t, root, g, ord, d);
    lemma_n(t, root, g, ord, r);
    let y = t[r].back.unwrap();
    lemma_n(t, root, g, ord, y);
    assert(r_ok(t, d)); assert(r_ok(t, r)); assert(r_ok(t, y));
    if let Some(b) = t[d].back { lemma_n(t, root, g, ord, b); assert(r_ok(t, b)); }
    if let Some(c) = t[d].r { lemma_n(t, root, g, ord, c); assert(r_ok(t, c)); lemma_rank_size(t, root, g, ord, d, c); }

    let e = if u[p1].l is None && u[p1].r is None { u[p1].back } else { Some(p1) };
    assert forall|q: I| u.dom().contains(q) && e != Some(q) implies #[trigger] r_ok(u, q) by {
        lemma_n(t, root, g, ord, q);
        if let Some(c) = t[q].l { lemma_n(t, root, g, ord, c); }
        if let Some(c) = t[q].r { lemma_n(t, root, g, ord, c); }
        assert(r_ok(t, q));
        if q == r { assert(r_ok(u, q)); } else if q == y { assert(r_ok(u, q)); } else if q == p1 { assert(r_ok(u, q)); } else if t[d].back == Some(q) { assert(r_ok(u, q)); } else { assert(r_ok(u, q)); }
    }
}

pub proof fn lemma_lift_rank3<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, d: I, r: I)
    requires t_ok(t, root, g, ord), r_all(t), t.dom().contains(d), t[d].l is Some, r == ord[g[d].at - 1],
        t[r].l is None, t[d].l != Some(r),
    ensures rem_inv(cleared(lift(t, d, r), lift_p1(t, d, r)), lift_p1(t, d, r), None),
{
    hide(t_ok);
    let t1 = lift(t, d, r);
    let p1 = lift_p1(t, d, r);
    let u = cleared(t1, p1);
    lemma_pred(t, root, g, ord, d, r);
    lemma_half(t, root, g, ord, r);
    lemma_n(t, root, g, ord, d);
    lemma_n(t, root, g, ord, r);
    let y = t[r].back.unwrap();
    lemma_n(t, root, g, ord, y);
    assert(r_ok(t, d)); assert(r_ok(t, r)); assert(r_ok(t, y));
    if let Some(b) = t[d].back { lemma_n(t, root, g, ord, b); assert(r_ok(t, b)); }
    if let Some(b) = t[y].back { lemma_n(t, root, g, ord, b); assert(r_ok(t, b)); }
    if let Some(c) = t[y].l { lemma_n(t, root, g, ord, c); assert(r_ok(t, c)); }

    let e = if u[p1].l is None && u[p1].r is None { u[p1].back } else { Some(p1) };
    assert forall|q: I| u.dom().contains(q) && e != Some(q) implies #[trigger] r_ok(u, q) by {
        lemma_n(t, root, g, ord, q);
        if let Some(c) = t[q].l { lemma_n(t, root, g, ord, c); }
        if let Some(c) = t[q].r { lemma_n(t, root, g, ord, c); }
        assert(r_ok(t, q));
        if q == r { assert(r_ok(u, q)); } else if q == y { assert(r_ok(u, q)); } else if q == p1 { assert(r_ok(u, q)); } else if t[d].back == Some(q) { assert(r_ok(u, q)); } else { assert(r_ok(u, q)); }
    }
}

pub proof fn lemma_lift_rank<I>(t: IMap<I, TN<I>>, root: I, g: IMap<I, IV>, ord: Seq<I>, d: I, r: I)
    requires t_ok(t, root, g, ord), r_all(t), t.dom().contains(d), t[d].l is Some, r == ord[g[d].at - 1],
    ensures rem_inv(cleared(lift(t, d, r), lift_p1(t, d, r)), lift_p1(t, d, r), None),
{
    hide(t_ok); hide(rem_inv); hide(lift); hide(cleared);
    if t[r].l is Some { lemma_lift_rank1(t, root, g, ord, d, r); }
    else if t[d].l == Some(r) { lemma_lift_rank2(t, root, g, ord, d, r); }
    else { lemma_lift_rank3(t, root, g, ord, d, r); }
}
