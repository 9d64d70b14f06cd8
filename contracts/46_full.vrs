// ghost: uniqueness of trees, full trees, leaf positions
verus! {
pub proof fn lemma_off_strict(s: Seq<TreeNode>, i: nat, j: nat, D: nat)
    requires i < j <= s.len() ensures off(s, i, D) < off(s, j, D) decreases j
{ lemma_pow2_pos((D - ndepth(s[j - 1], D)) as nat); if i < j - 1 { lemma_off_strict(s, i, (j - 1) as nat, D); } }

/// a cross-section determines its tree
pub proof fn lemma_unique(a: GT, b: GT, d: nat, D: nat)
    requires wf(a, d, D), wf(b, d, D), flat(a) == flat(b)
    ensures a == b // @C03,C04,C05,C07
    decreases a
{
    match (a, b) {
        (GT::Node(x), GT::Node(y)) => { assert(flat(a)[0] == x && flat(b)[0] == y); }
        (GT::Node(x), GT::Br(l, r)) => { lemma_flat_nonempty(*l); lemma_flat_nonempty(*r); assert(flat(a).len() == 1); }
        (GT::Br(l, r), GT::Node(x)) => { lemma_flat_nonempty(*l); lemma_flat_nonempty(*r); assert(flat(b).len() == 1); }
        (GT::Br(l, r), GT::Br(l2, r2)) => {
            let s = flat(a); let h = pow2((D - d - 1) as nat);
            let (n, m) = (flat(*l).len(), flat(*l2).len());
            lemma_flat_width(*l, d + 1, D); lemma_flat_width(*l2, d + 1, D);
            lemma_off_concat(flat(*l), flat(*r), n, D); lemma_off_concat(flat(*l2), flat(*r2), m, D);
            assert(off(s, n, D) == h && off(s, m, D) == h);
            if n < m { lemma_off_strict(s, n, m, D); }
            if m < n { lemma_off_strict(s, m, n, D); }
            assert(flat(*l) =~= s.take(n as int)); assert(flat(*l2) =~= s.take(n as int));
            assert(flat(*r) =~= s.skip(n as int)); assert(flat(*r2) =~= s.skip(n as int));
            lemma_unique(*l, *l2, d + 1, D); lemma_unique(*r, *r2, d + 1, D);
        }
    }
}
pub proof fn lemma_the_tree(t: GT, s: Seq<TreeNode>, D: nat)
    requires is_tree(t, s, D) ensures the_tree(s, D) == t, xsec(s, D) // @C03,C04,C05,C07
{ lemma_unique(t, the_tree(s, D), 0, D); }

/// the full tree over 2^(D-d) bottom nodes
pub open spec fn full(s: Seq<TreeNode>, d: nat, D: nat) -> GT decreases D - d {
    if d >= D { GT::Node(s[0]) } else { let h = pow2((D - d - 1) as nat) as int; GT::Br(Box::new(full(s.take(h), d + 1, D)), Box::new(full(s.skip(h), d + 1, D))) }
}
pub open spec fn bottom(s: Seq<TreeNode>, D: nat) -> bool { forall|i: int| 0 <= i < s.len() ==> ndepth(#[trigger] s[i], D) == D }
pub open spec fn hashes(s: Seq<TreeNode>) -> Seq<MerkleHash> { s.map_values(|n: TreeNode| nhash(n)) }
pub proof fn lemma_full(s: Seq<TreeNode>, d: nat, D: nat)
    requires d <= D, s.len() == pow2((D - d) as nat), bottom(s, D)
    ensures wf(full(s, d, D), d, D), flat(full(s, d, D)) =~= s, // @C03
        th(full(s, d, D), d, D) == (if d == D { nhash(s[0]) } else { mk(hashes(s), d, pow2(D)) }) // @C03
    decreases D - d
{
    lemma2_to64();
    if d < D {
        lemma_pow2_half(D, d);
        let h = pow2((D - d - 1) as nat) as int;
        let (a, b) = (s.take(h), s.skip(h));
        assert forall|i: int| 0 <= i < a.len() implies ndepth(#[trigger] a[i], D) == D by { assert(a[i] == s[i]); }
        assert forall|i: int| 0 <= i < b.len() implies ndepth(#[trigger] b[i], D) == D by { assert(b[i] == s[i + h]); }
        lemma_full(a, d + 1, D); lemma_full(b, d + 1, D);
        assert(s =~= a + b);
        assert(hashes(s).take(h) =~= hashes(a)); assert(hashes(s).skip(h) =~= hashes(b));
        assert(hashes(s)[0] == nhash(s[0]));
        if d + 1 == D { assert(h == 1); assert(a[0] == s[0] && b[0] == s[1]); assert(hashes(s)[1] == nhash(s[1])); }
        else { lemma_pow2_half(D, d + 1); assert(s.len() > 2); assert((s.len() + 1) / 2 == h); }
    }
}
/// everything concealed: a single node with the root hash is left
pub proof fn lemma_conceal_all(t: GT, d: nat, D: nat)
    requires wf(t, d, D), D < 32
    ensures is_cn(reduce(t, d, D, Seq::empty())), flat(reduce(t, d, D, Seq::empty())) =~= seq![cnode(d, th(t, d, D))] // @C03,C04
    decreases t
{
    match t { GT::Node(n) => { match n { TreeNode::ConcealedNode { depth, hash } => { assert(depth == u5 { v: d as u8 }); } _ => {} } },
        GT::Br(l, r) => { lemma_conceal_all(*l, d + 1, D); lemma_conceal_all(*r, d + 1, D);
            lemma_reduce(*l, d + 1, D, Seq::empty()); lemma_reduce(*r, d + 1, D, Seq::empty()); } }
}
}
