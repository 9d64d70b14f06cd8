// ghost: joining two partial views of one tree; depth tracking over a subtree
verus! {
/// the two views joined: whatever either of them reveals
pub open spec fn mg(a: GT, b: GT) -> GT decreases a {
    match (a, b) { (GT::Node(x), GT::Node(y)) => if x is CommitmentLeaf { a } else { b }, (GT::Node(_), GT::Br(_, _)) => b, (GT::Br(_, _), GT::Node(_)) => a,
        (GT::Br(l, r), GT::Br(l2, r2)) => GT::Br(Box::new(mg(*l, *l2)), Box::new(mg(*r, *r2))) }
}
/// the views do not contradict each other
pub open spec fn agree(a: GT, b: GT) -> bool decreases a {
    match (a, b) { (GT::Node(x), GT::Node(y)) => x == y || x is CommitmentLeaf != y is CommitmentLeaf, (GT::Node(x), GT::Br(_, _)) => is_conc(x), (GT::Br(_, _), GT::Node(y)) => is_conc(y),
        (GT::Br(l, r), GT::Br(l2, r2)) => agree(*l, *l2) && agree(*r, *r2) }
}
/// without a collision, views with one root hash agree and join under it
pub proof fn lemma_agree(a: GT, b: GT, d: nat, D: nat, S: Set<Seq<u8>>)
    requires collision_free(S), tcov(a, d, D, S), tcov(b, d, D, S), wf(a, d, D), wf(b, d, D), D < 32, th(a, d, D) == th(b, d, D)
    ensures agree(a, b), wf(mg(a, b), d, D), th(mg(a, b), d, D) == th(a, d, D) // @C07
    decreases a
{
    match (a, b) {
        (GT::Node(x), GT::Node(y)) => { match (x, y) {
            (TreeNode::CommitmentLeaf { protocol_id, message }, TreeNode::CommitmentLeaf { protocol_id: p2, message: m2 }) => { reveal(leaf_hash); lemma_inhabited_inj(protocol_id, message, p2, m2); }
            (TreeNode::ConcealedNode { depth, hash }, TreeNode::ConcealedNode { depth: d2, hash: h2 }) => { assert(depth.v == d2.v); assert(depth == d2); }
            _ => {} } }
        (GT::Br(l, r), GT::Br(l2, r2)) => {
            lemma_p31(D);
            lemma_node_hash_inj(d, pow2(D), th(*l, d + 1, D), th(*r, d + 1, D), th(*l2, d + 1, D), th(*r2, d + 1, D), S);
            lemma_agree(*l, *l2, d + 1, D, S); lemma_agree(*r, *r2, d + 1, D, S);
        }
        _ => {}
    }
}
/// the join knows exactly what one of the two knows
pub proof fn lemma_mg_leaves(a: GT, b: GT, n: TreeNode)
    requires agree(a, b), n is CommitmentLeaf
    ensures flat(mg(a, b)).contains(n) <==> flat(a).contains(n) || flat(b).contains(n) // @C07
    decreases a
{
    match (a, b) {
        (GT::Br(l, r), GT::Br(l2, r2)) => {
            lemma_mg_leaves(*l, *l2, n); lemma_mg_leaves(*r, *r2, n);
            lemma_contains_concat(flat(*l), flat(*r), n); lemma_contains_concat(flat(*l2), flat(*r2), n); lemma_contains_concat(flat(mg(*l, *l2)), flat(mg(*r, *r2)), n);
        }
        (GT::Node(x), GT::Node(y)) => { assert(flat(a)[0] == x && flat(b)[0] == y); }
        (GT::Node(x), _) => { assert(flat(a)[0] == x); }
        (_, GT::Node(y)) => { assert(flat(b)[0] == y); }
    }
}
pub proof fn lemma_mg_placed(a: GT, b: GT, d: nat, D: nat, base: nat, cof: u16)
    requires tplaced(a, d, D, base, cof), tplaced(b, d, D, base, cof)
    ensures tplaced(mg(a, b), d, D, base, cof) // @C07
    decreases a
{
    match (a, b) { (GT::Br(l, r), GT::Br(l2, r2)) => { lemma_mg_placed(*l, *l2, d + 1, D, base, cof); lemma_mg_placed(*r, *r2, d + 1, D, base + pow2((D - d - 1) as nat), cof); } _ => {} }
}
/// joining is commutative, idempotent and associative: neither order nor repetition of merges matters
pub proof fn lemma_mg_comm(a: GT, b: GT) requires agree(a, b) ensures mg(a, b) == mg(b, a), agree(b, a) /* @C07 */ decreases a
{ match (a, b) { (GT::Br(l, r), GT::Br(l2, r2)) => { lemma_mg_comm(*l, *l2); lemma_mg_comm(*r, *r2); } _ => {} } }
pub proof fn lemma_mg_idem(a: GT) ensures mg(a, a) == a, agree(a, a) /* @C07 */ decreases a
{ match a { GT::Br(l, r) => { lemma_mg_idem(*l); lemma_mg_idem(*r); } _ => {} } }
pub proof fn lemma_mg_assoc(a: GT, b: GT, c: GT) requires agree(a, b), agree(b, c), agree(a, c)
    ensures mg(mg(a, b), c) == mg(a, mg(b, c)), agree(mg(a, b), c), agree(a, mg(b, c)) // @C07
    decreases a, b
{ match (a, b, c) { (GT::Br(l, r), GT::Br(l2, r2), GT::Br(l3, r3)) => { lemma_mg_assoc(*l, *l2, *l3); lemma_mg_assoc(*r, *r2, *r3); } _ => {} } }

// ---- the two node sequences, cut where one view has a single node
pub open spec fn prs(a: GT, b: GT, d: nat) -> Seq<(GT, GT, nat)> decreases a {
    match (a, b) { (GT::Br(l, r), GT::Br(l2, r2)) => prs(*l, *l2, d + 1) + prs(*r, *r2, d + 1), _ => seq![(a, b, d)] }
}
pub open spec fn side(k: int, p: (GT, GT, nat)) -> Seq<TreeNode> { if k == 0 { flat(p.0) } else if k == 1 { flat(p.1) } else { flat(mg(p.0, p.1)) } }
pub open spec fn cat(k: int, s: Seq<(GT, GT, nat)>) -> Seq<TreeNode> decreases s.len() { if s.len() == 0 { Seq::empty() } else { side(k, s[0]) + cat(k, s.skip(1)) } }
pub open spec fn cut_ok(p: (GT, GT, nat), D: nat) -> bool { wf(p.0, p.2, D) && wf(p.1, p.2, D) && agree(p.0, p.1) && (p.0 is Node || p.1 is Node) }
pub open spec fn cuts_ok(s: Seq<(GT, GT, nat)>, D: nat) -> bool { forall|i: int| 0 <= i < s.len() ==> cut_ok(#[trigger] s[i], D) }
pub proof fn lemma_cat_concat(k: int, s: Seq<(GT, GT, nat)>, t: Seq<(GT, GT, nat)>)
    ensures cat(k, s + t) =~= cat(k, s) + cat(k, t)
    decreases s.len()
{
    if s.len() == 0 { assert(s + t =~= t); } else { lemma_cat_concat(k, s.skip(1), t); assert((s + t).skip(1) =~= s.skip(1) + t); assert((s + t)[0] == s[0]); }
}
pub proof fn lemma_prs(a: GT, b: GT, d: nat, D: nat)
    requires wf(a, d, D), wf(b, d, D), agree(a, b)
    ensures cuts_ok(prs(a, b, d), D), cat(0, prs(a, b, d)) =~= flat(a), cat(1, prs(a, b, d)) =~= flat(b), cat(2, prs(a, b, d)) =~= flat(mg(a, b)) // @C07
    decreases a
{
    match (a, b) { (GT::Br(l, r), GT::Br(l2, r2)) => {
            lemma_prs(*l, *l2, d + 1, D); lemma_prs(*r, *r2, d + 1, D);
            let (s, t) = (prs(*l, *l2, d + 1), prs(*r, *r2, d + 1));
            lemma_cat_concat(0, s, t); lemma_cat_concat(1, s, t); lemma_cat_concat(2, s, t);
        }
        _ => { let s = prs(a, b, d); assert(s =~= seq![(a, b, d)]); assert(s.skip(1) =~= Seq::empty()); reveal_with_fuel(cat, 2); } }
}
/// the front of the two sequences
pub proof fn lemma_front(s: Seq<(GT, GT, nat)>, D: nat)
    requires s.len() > 0, cuts_ok(s, D)
    ensures ({ let (x, y, d) = s[0]; let (n1, n2) = (flat(x)[0], flat(y)[0]);
        &&& flat(x).len() > 0 && flat(y).len() > 0 && cuts_ok(s.skip(1), D)
        &&& cat(0, s) == flat(x) + cat(0, s.skip(1)) && cat(1, s) == flat(y) + cat(1, s.skip(1)) && cat(2, s) == flat(mg(x, y)) + cat(2, s.skip(1))
        &&& d <= ndepth(n1, D) <= D && d <= ndepth(n2, D) <= D
        &&& x is Node ==> flat(x) == seq![n1] && ndepth(n1, D) == d
        &&& y is Node ==> flat(y) == seq![n2] && ndepth(n2, D) == d
        &&& x is Br ==> flat(x).len() >= 2 && ndepth(n1, D) > d && mg(x, y) == x
        &&& y is Br ==> flat(y).len() >= 2 && ndepth(n2, D) > d && mg(x, y) == y
        &&& x is Node && y is Node ==> flat(mg(x, y)) == seq![if n1 is CommitmentLeaf { n1 } else { n2 }] && (n1 == n2 || n1 is CommitmentLeaf != n2 is CommitmentLeaf)
    }) // @C07
{
    let (x, y, d) = s[0];
    assert(cut_ok(s[0], D));
    lemma_flat_nonempty(x); lemma_flat_nonempty(y); lemma_flat_width(x, d, D); lemma_flat_width(y, d, D);
    match x { GT::Node(n) => { assert(flat(x)[0] == n); assert(flat(x) =~= seq![n]); } GT::Br(l, r) => { lemma_flat_nonempty(*l); lemma_flat_nonempty(*r); lemma_flat_width(*l, d + 1, D); assert(flat(x)[0] == flat(*l)[0]); } }
    match y { GT::Node(n) => { assert(flat(y)[0] == n); assert(flat(y) =~= seq![n]); } GT::Br(l, r) => { lemma_flat_nonempty(*l); lemma_flat_nonempty(*r); lemma_flat_width(*l, d + 1, D); assert(flat(y)[0] == flat(*l)[0]); } }
}
// ---- MerkleBuoy over a subtree
pub open spec fn bfold(st: Seq<nat>, s: Seq<TreeNode>, D: nat) -> Seq<nat> decreases s.len() { if s.len() == 0 { st } else { bpush(bfold(st, s.drop_last(), D), ndepth(s.last(), D)) } }
pub proof fn lemma_bfold_concat(st: Seq<nat>, a: Seq<TreeNode>, b: Seq<TreeNode>, D: nat)
    ensures bfold(st, a + b, D) == bfold(bfold(st, a, D), b, D)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else { lemma_bfold_concat(st, a, b.drop_last(), D); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); }
}
/// pushing all the depths of a subtree is pushing the depth of its root; it does not surface earlier
pub proof fn lemma_bfold_tree(t: GT, e: nat, D: nat, st: Seq<nat>)
    requires wf(t, e, D), st.len() > 0, st.last() <= e, e >= 1
    ensures bfold(st, flat(t), D) == bpush(st, e), // @C07,C18
        forall|m: int| 1 <= m < flat(t).len() ==> (#[trigger] bfold(st, flat(t).take(m), D)).last() > e // @C07,C18
    decreases t
{
    match t { GT::Node(n) => { assert(flat(t) =~= seq![n]); assert(flat(t).drop_last() =~= Seq::empty()); reveal_with_fuel(bfold, 2); }, GT::Br(l, r) => {
        let (sl, sr) = (flat(*l), flat(*r)); let nl = sl.len() as int;
        lemma_flat_nonempty(*l); lemma_flat_nonempty(*r);
        lemma_bfold_tree(*l, e + 1, D, st);
        let st2 = st.push(e + 1);
        assert(bpush(st, e + 1) == st2);
        lemma_bfold_tree(*r, e + 1, D, st2);
        lemma_bfold_concat(st, sl, sr, D);
        assert(st2.drop_last() =~= st);
        assert forall|m: int| 1 <= m < flat(t).len() implies (#[trigger] bfold(st, flat(t).take(m), D)).last() > e by {
            if m <= nl { assert(flat(t).take(m) =~= sl.take(m)); if m == nl { assert(sl.take(m) =~= sl); } }
            else { assert(flat(t).take(m) =~= sl + sr.take(m - nl)); lemma_bfold_concat(st, sl, sr.take(m - nl), D); }
        }
    } }
}
/// levels after the first m nodes of a subtree
pub open spec fn lvl(s: Seq<TreeNode>, m: int, D: nat) -> Seq<nat> { bfold(seq![ndepth(s[0], D)], s.subrange(1, m), D) }
pub proof fn lemma_lvl(t: GT, e: nat, D: nat)
    requires wf(t, e, D)
    ensures lvl(flat(t), flat(t).len() as int, D) == seq![e], // @C07,C18
        forall|m: int| 1 <= m < flat(t).len() ==> (#[trigger] lvl(flat(t), m, D)).last() > e // @C07,C18
    decreases t
{
    match t { GT::Node(n) => { assert(flat(t).subrange(1, 1) =~= Seq::empty()); assert(flat(t)[0] == n); }, GT::Br(l, r) => {
        let (sl, sr) = (flat(*l), flat(*r)); let nl = sl.len() as int; let s = flat(t);
        lemma_flat_nonempty(*l); lemma_flat_nonempty(*r);
        lemma_lvl(*l, e + 1, D);
        let st = seq![e + 1];
        lemma_bfold_tree(*r, e + 1, D, st);
        assert(s[0] == sl[0]);
        assert(s.subrange(1, s.len() as int) =~= sl.subrange(1, nl) + sr);
        lemma_bfold_concat(seq![ndepth(s[0], D)], sl.subrange(1, nl), sr, D);
        assert(bpush(st, e + 1) == seq![e]);
        assert forall|m: int| 1 <= m < s.len() implies (#[trigger] lvl(s, m, D)).last() > e by {
            if m <= nl { assert(s.subrange(1, m) =~= sl.subrange(1, m)); assert(lvl(s, m, D) == lvl(sl, m, D)); }
            else { assert(s.subrange(1, m) =~= sl.subrange(1, nl) + sr.take(m - nl)); lemma_bfold_concat(seq![ndepth(s[0], D)], sl.subrange(1, nl), sr.take(m - nl), D); }
        }
    } }
}
pub proof fn lemma_lvl_step(s: Seq<TreeNode>, m: int, D: nat)
    requires 1 <= m < s.len() ensures lvl(s, m + 1, D) == bpush(lvl(s, m, D), ndepth(s[m], D)), lvl(s, 1, D) == seq![ndepth(s[0], D)]
{ assert(s.subrange(1, m + 1).drop_last() =~= s.subrange(1, m)); assert(s.subrange(1, m + 1).last() == s[m]); assert(s.subrange(1, 1) =~= Seq::empty()); }
pub proof fn lemma_flat_len(t: GT, d: nat, D: nat) requires wf(t, d, D) ensures 1 <= flat(t).len() <= pow2((D - d) as nat) decreases t
{ lemma_pow2_pos((D - d) as nat); match t { GT::Br(l, r) => { lemma_flat_len(*l, d + 1, D); lemma_flat_len(*r, d + 1, D); lemma_pow2_half(D, d); } _ => {} } }
}
