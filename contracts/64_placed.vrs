// ghost: leaves stand at their protocol's slot; the path of a known leaf
verus! {
/// every known leaf of the (sub)tree starting at bottom position `base` stands at the slot of its protocol
pub open spec fn tplaced(t: GT, d: nat, D: nat, base: nat, cofactor: u16) -> bool decreases t {
    match t { GT::Node(TreeNode::CommitmentLeaf { protocol_id, .. }) => slot(protocol_id, cofactor, D) == base, GT::Node(_) => true,
        GT::Br(l, r) => tplaced(*l, d + 1, D, base, cofactor) && tplaced(*r, d + 1, D, base + pow2((D - d - 1) as nat), cofactor) }
}
pub open spec fn cleaf(p: ProtocolId, m: Message) -> TreeNode { TreeNode::CommitmentLeaf { protocol_id: p, message: m } }
pub proof fn lemma_placed_range(t: GT, d: nat, D: nat, base: nat, cof: u16, p: ProtocolId, m: Message)
    requires wf(t, d, D), tplaced(t, d, D, base, cof), flat(t).contains(cleaf(p, m))
    ensures base <= slot(p, cof, D) < base + pow2((D - d) as nat)
    decreases t
{
    lemma_pow2_pos((D - d) as nat);
    match t { GT::Node(n) => { assert(flat(t)[0] == n); }, GT::Br(l, r) => {
        lemma_pow2_half(D, d); lemma_contains_concat(flat(*l), flat(*r), cleaf(p, m));
        if flat(*l).contains(cleaf(p, m)) { lemma_placed_range(*l, d + 1, D, base, cof, p, m); }
        else { lemma_placed_range(*r, d + 1, D, base + pow2((D - d - 1) as nat), cof, p, m); }
    } }
}
/// a protocol is known with one message only
pub proof fn lemma_placed_unique(t: GT, d: nat, D: nat, base: nat, cof: u16, p: ProtocolId, m: Message, m2: Message)
    requires wf(t, d, D), tplaced(t, d, D, base, cof), flat(t).contains(cleaf(p, m)), flat(t).contains(cleaf(p, m2))
    ensures m == m2 // @C05,C07
    decreases t
{
    match t { GT::Node(n) => { assert(flat(t)[0] == n); }, GT::Br(l, r) => {
        let h = pow2((D - d - 1) as nat); let b2: nat = base + h;
        lemma_contains_concat(flat(*l), flat(*r), cleaf(p, m)); lemma_contains_concat(flat(*l), flat(*r), cleaf(p, m2));
        if flat(*l).contains(cleaf(p, m)) { lemma_placed_range(*l, d + 1, D, base, cof, p, m); } else { lemma_placed_range(*r, d + 1, D, b2, cof, p, m); }
        if flat(*l).contains(cleaf(p, m2)) { lemma_placed_range(*l, d + 1, D, base, cof, p, m2); } else { lemma_placed_range(*r, d + 1, D, b2, cof, p, m2); }
        if flat(*l).contains(cleaf(p, m)) { lemma_placed_unique(*l, d + 1, D, base, cof, p, m, m2); } else { lemma_placed_unique(*r, d + 1, D, b2, cof, p, m, m2); }
    } }
}
/// position of a leaf: its slot
pub proof fn lemma_placed_at(t: GT, d: nat, D: nat, base: nat, cof: u16, i: int)
    requires wf(t, d, D), tplaced(t, d, D, base, cof), 0 <= i < flat(t).len(), flat(t)[i] is CommitmentLeaf
    ensures slot(flat(t)[i]->protocol_id, cof, D) == base + off(flat(t), i as nat, D) // @C05,C07,C04
    decreases t
{
    match t { GT::Node(n) => { assert(flat(t)[0] == n); assert(off(flat(t), 0, D) == 0); }, GT::Br(l, r) => {
        let (sl, sr) = (flat(*l), flat(*r)); let nl = sl.len() as int;
        lemma_off_concat(sl, sr, i as nat, D); lemma_flat_width(*l, d + 1, D);
        if i < nl { assert(flat(t)[i] == sl[i]); lemma_placed_at(*l, d + 1, D, base, cof, i); }
        else { assert(flat(t)[i] == sr[i - nl]); assert(off(sr, 0, D) == 0); lemma_placed_at(*r, d + 1, D, base + pow2((D - d - 1) as nat), cof, i - nl); }
    } }
}
pub proof fn lemma_placed_reduce(t: GT, d: nat, D: nat, base: nat, cof: u16, keep: Seq<ProtocolId>)
    requires tplaced(t, d, D, base, cof)
    ensures tplaced(reduce(t, d, D, keep), d, D, base, cof), tplaced(ht(t, keep, D), d, D, base, cof) // @C04,C05
    decreases t
{ match t { GT::Node(n) => {}, GT::Br(l, r) => { lemma_placed_reduce(*l, d + 1, D, base, cof, keep); lemma_placed_reduce(*r, d + 1, D, base + pow2((D - d - 1) as nat), cof, keep); } } }
pub proof fn lemma_placed_ptree(path: Seq<MerkleHash>, k: nat, D: nat, pos: nat, base: nat, cof: u16, p: ProtocolId, m: Message)
    requires k <= D, pos < pow2((D - k) as nat), slot(p, cof, D) == base + pos
    ensures tplaced(ptree(path, k, D, pos, cleaf(p, m)), k, D, base, cof) // @C05,C07
    decreases D - k
{
    lemma2_to64();
    if k < D { lemma_pow2_half(D, k); let h = pow2((D - k - 1) as nat);
        let x = GT::Node(cnode(k + 1, path[k as int])); assert(tplaced(x, k + 1, D, base, cof)); assert(tplaced(x, k + 1, D, base + h, cof));
        if pos >= h { lemma_placed_ptree(path, k + 1, D, (pos - h) as nat, base + h, cof, p, m); } else { lemma_placed_ptree(path, k + 1, D, pos, base, cof, p, m); } }
}
pub proof fn lemma_placed_full(s: Seq<TreeNode>, d: nat, D: nat, base: nat, cof: u16)
    requires d <= D, s.len() == pow2((D - d) as nat), forall|i: int| 0 <= i < s.len() && s[i] is CommitmentLeaf ==> slot((#[trigger] s[i])->protocol_id, cof, D) == base + i
    ensures tplaced(full(s, d, D), d, D, base, cof) // @C03,C05
    decreases D - d
{
    lemma2_to64();
    if d < D {
        lemma_pow2_half(D, d); let h = pow2((D - d - 1) as nat) as int; let (a, b) = (s.take(h), s.skip(h));
        assert forall|i: int| 0 <= i < a.len() && a[i] is CommitmentLeaf implies slot((#[trigger] a[i])->protocol_id, cof, D) == base + i by { assert(a[i] == s[i]); }
        assert forall|i: int| 0 <= i < b.len() && b[i] is CommitmentLeaf implies slot((#[trigger] b[i])->protocol_id, cof, D) == base + h + i by { assert(b[i] == s[i + h]); }
        lemma_placed_full(a, d + 1, D, base, cof); lemma_placed_full(b, d + 1, D, (base + h) as nat, cof);
    }
}
/// hashing partners of the node at `pos`, from the root down
pub open spec fn rpath(t: GT, d: nat, D: nat, pos: nat) -> Seq<MerkleHash> decreases t {
    match t { GT::Node(_) => Seq::empty(), GT::Br(l, r) => { let h = pow2((D - d - 1) as nat);
        if pos >= h { seq![th(*l, d + 1, D)] + rpath(*r, d + 1, D, (pos - h) as nat) } else { seq![th(*r, d + 1, D)] + rpath(*l, d + 1, D, pos) } } }
}
/// nothing kept: one node is left
pub proof fn lemma_reduce_none(t: GT, d: nat, D: nat, keep: Seq<ProtocolId>)
    requires wf(t, d, D), D < 32, forall|n: TreeNode| flat(t).contains(n) ==> !#[trigger] kept(n, keep)
    ensures reduce(t, d, D, keep) == GT::Node(cnode(d, th(t, d, D)))
    decreases t
{
    match t { GT::Node(n) => { assert(flat(t)[0] == n); assert(!kept(n, keep)); match n { TreeNode::ConcealedNode { depth, hash } => { assert(depth == u5 { v: d as u8 }); } _ => {} } },
        GT::Br(l, r) => {
            assert forall|n: TreeNode| flat(*l).contains(n) implies !#[trigger] kept(n, keep) by { lemma_contains_concat(flat(*l), flat(*r), n); }
            assert forall|n: TreeNode| flat(*r).contains(n) implies !#[trigger] kept(n, keep) by { lemma_contains_concat(flat(*l), flat(*r), n); }
            lemma_reduce_none(*l, d + 1, D, keep); lemma_reduce_none(*r, d + 1, D, keep);
        } }
}
/// concealing everything but one protocol leaves the tree of its path
pub proof fn lemma_comb(t: GT, d: nat, D: nat, base: nat, cof: u16, p: ProtocolId, m: Message, path: Seq<MerkleHash>)
    requires wf(t, d, D), D < 32, tplaced(t, d, D, base, cof), flat(t).contains(cleaf(p, m)), path.len() == D,
        path.skip(d as int) == rpath(t, d, D, (slot(p, cof, D) - base) as nat)
    ensures reduce(t, d, D, seq![p]) == ptree(path, d, D, (slot(p, cof, D) - base) as nat, cleaf(p, m)) // @C05
    decreases t
{
    let keep = seq![p]; let lf = cleaf(p, m); let x = slot(p, cof, D);
    assert(keep[0] == p);
    lemma_placed_range(t, d, D, base, cof, p, m);
    match t { GT::Node(n) => { assert(flat(t)[0] == n); assert(n == lf); assert(d == D); },
        GT::Br(l, r) => {
            let h = pow2((D - d - 1) as nat); let b2: nat = base + h; let pos = (x - base) as nat;
            lemma_pow2_half(D, d); lemma_contains_concat(flat(*l), flat(*r), lf);
            let inl = flat(*l).contains(lf);
            if inl { lemma_placed_range(*l, d + 1, D, base, cof, p, m); } else { lemma_placed_range(*r, d + 1, D, b2, cof, p, m); }
            let (sub, other, sb, ob) = if inl { (*l, *r, base, b2) } else { (*r, *l, b2, base) };
            assert forall|n: TreeNode| flat(other).contains(n) implies !#[trigger] kept(n, keep) by {
                if kept(n, keep) { let i = choose|i: int| 0 <= i < keep.len() && keep[i] == n->protocol_id; assert(n->protocol_id == p); assert(n == cleaf(p, n->message)); lemma_placed_range(other, d + 1, D, ob, cof, p, n->message); }
            }
            lemma_reduce_none(other, d + 1, D, keep);
            let rest = rpath(sub, d + 1, D, (x - sb) as nat);
            assert(path.skip(d as int) == seq![th(other, d + 1, D)] + rest);
            assert(path[d as int] == path.skip(d as int)[0]); assert(path[d as int] == th(other, d + 1, D));
            assert(path.skip(d as int + 1) =~= path.skip(d as int).skip(1)); assert((seq![th(other, d + 1, D)] + rest).skip(1) =~= rest);
            lemma_comb(sub, d + 1, D, sb, cof, p, m, path);
            lemma_reduce_leaves(sub, d + 1, D, keep, lf); assert(keep.contains(p));
            let rs = reduce(sub, d + 1, D, keep);
            if is_cn(rs) { assert(flat(rs)[0] is ConcealedNode && flat(rs).len() == 1); }
        } }
}
pub proof fn lemma_rpath_len(t: GT, d: nat, D: nat, base: nat, cof: u16, p: ProtocolId, m: Message)
    requires wf(t, d, D), tplaced(t, d, D, base, cof), flat(t).contains(cleaf(p, m))
    ensures rpath(t, d, D, (slot(p, cof, D) - base) as nat).len() == D - d // @C05
    decreases t
{
    lemma_placed_range(t, d, D, base, cof, p, m);
    match t { GT::Node(n) => { assert(flat(t)[0] == n); }, GT::Br(l, r) => {
        let h = pow2((D - d - 1) as nat); lemma_contains_concat(flat(*l), flat(*r), cleaf(p, m));
        if flat(*l).contains(cleaf(p, m)) { lemma_placed_range(*l, d + 1, D, base, cof, p, m); lemma_rpath_len(*l, d + 1, D, base, cof, p, m); }
        else { lemma_placed_range(*r, d + 1, D, base + h, cof, p, m); lemma_rpath_len(*r, d + 1, D, base + h, cof, p, m); }
    } }
}
/// the nodes of a path's tree: its leaf, and one concealed node per level with the path's hash
pub proof fn lemma_ptree_flat(path: Seq<MerkleHash>, k: nat, D: nat, pos: nat, leaf: TreeNode)
    requires k <= D < 32, D <= path.len(), leaf is CommitmentLeaf
    ensures ({ let s = flat(ptree(path, k, D, pos, leaf));
        &&& s.len() == D - k + 1
        &&& forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is ConcealedNode ==> k < s[i]->depth.n() <= D && s[i]->hash == path[s[i]->depth.n() - 1]
        &&& forall|i: int, j: int| 0 <= i < j < s.len() && (#[trigger] s[i]) is ConcealedNode && (#[trigger] s[j]) is ConcealedNode ==> s[i]->depth != s[j]->depth
        &&& forall|e: nat| k < e <= D ==> s.contains(#[trigger] cnode(e, path[e - 1]))
    })
    decreases D - k
{
    if k < D {
        let h = pow2((D - k - 1) as nat); let p2 = if pos >= h { (pos - h) as nat } else { pos };
        lemma_pstep(path, k, D, pos, leaf); lemma_ptree_flat(path, k + 1, D, p2, leaf);
        let s = flat(ptree(path, k, D, pos, leaf)); let s2 = flat(ptree(path, k + 1, D, p2, leaf)); let n = cnode(k + 1, path[k as int]);
        assert forall|e: nat| k < e <= D implies s.contains(#[trigger] cnode(e, path[e - 1])) by {
            lemma_contains_concat(seq![n], s2, cnode(e, path[e - 1])); lemma_contains_concat(s2, seq![n], cnode(e, path[e - 1]));
            if e == k + 1 { assert(seq![n][0] == n); } else { assert(s2.contains(cnode(e, path[e - 1]))); } }
        if pos >= h { assert forall|i: int| 1 <= i < s.len() implies #[trigger] s[i] == s2[i - 1] by {} assert(s[0] == n); }
        else { assert forall|i: int| 0 <= i < s.len() - 1 implies #[trigger] s[i] == s2[i] by {} assert(s[s.len() - 1] == n); }
    }
}
impl MerkleBlock {
    /// every known leaf stands at its protocol's slot (so a protocol is known at most once)
    pub open spec fn placed(&self) -> bool { tplaced(self.tree(), 0, self.D(), 0, self.cofactor) }
    pub open spec fn known_leaf(&self, p: ProtocolId, m: Message) -> bool { self.cs().contains(cleaf(p, m)) }
}
/// blocks made from trees, from proofs, and by concealing are placed
pub proof fn theorem_placed_from_tree(tree: &MerkleTree, b: &MerkleBlock)
    requires tree.depth.wf(), placed_map(tree.map.c@, tree.cofactor, tree.D()), b.ok(), b.cs() == tree.slots(), b.depth == tree.depth, b.cofactor == tree.cofactor
    ensures b.placed(), // @C03,C05
        forall|p: ProtocolId, m: Message| #[trigger] b.known_leaf(p, m) <==> exists|k: u32| tree.map.c@.contains_key(k) && #[trigger] tree.map.c@[k] == (p, m), // @C03,C05
{
    let s = tree.slots(); let D = tree.D();
    lemma_tree_slots(tree.map.c@, tree.entropy, tree.depth); lemma_p31(D);
    assert forall|i: int| 0 <= i < s.len() && s[i] is CommitmentLeaf implies slot((#[trigger] s[i])->protocol_id, tree.cofactor, D) == 0 + i by { assert(tree.map.c@.contains_key(i as u32)); }
    lemma_placed_full(s, 0, D, 0, tree.cofactor);
    assert forall|p: ProtocolId, m: Message| #[trigger] b.known_leaf(p, m) <==> exists|k: u32| tree.map.c@.contains_key(k) && #[trigger] tree.map.c@[k] == (p, m) by {
        if b.known_leaf(p, m) { let i = choose|i: int| 0 <= i < s.len() && s[i] == cleaf(p, m); assert(tree.map.c@.contains_key(i as u32) && tree.map.c@[i as u32] == (p, m)); }
        if exists|k: u32| tree.map.c@.contains_key(k) && #[trigger] tree.map.c@[k] == (p, m) { let k = choose|k: u32| tree.map.c@.contains_key(k) && #[trigger] tree.map.c@[k] == (p, m); assert(s[k as int] == cleaf(p, m)); }
    }
}
pub proof fn theorem_placed_from_proof(proof: &MerkleProof, p: ProtocolId, m: Message, b: &MerkleBlock)
    requires proof.inv(), proof.fits(p), b.ok(), b.tree() == proof.ptree(p, m), b.D() == proof.ph().len(), b.cofactor == proof.cofactor
    ensures b.placed(), // @C05,C07
        forall|q: ProtocolId, n: Message| #[trigger] b.known_leaf(q, n) <==> q == p && n == m // @C05,C07
{
    let D = proof.D(); lemma_slot(p, proof.cofactor, D); lemma_placed_ptree(proof.ph(), 0, D, proof.pos as nat, 0, proof.cofactor, p, m);
    assert forall|q: ProtocolId, n: Message| #[trigger] b.known_leaf(q, n) <==> q == p && n == m by { lemma_ptree_known(proof.ph(), 0, D, proof.pos as nat, cleaf(p, m), cleaf(q, n)); }
}
pub proof fn lemma_ptree_known(path: Seq<MerkleHash>, k: nat, D: nat, pos: nat, leaf: TreeNode, n: TreeNode)
    requires k <= D, D <= path.len(), leaf is CommitmentLeaf, n is CommitmentLeaf
    ensures flat(ptree(path, k, D, pos, leaf)).contains(n) <==> n == leaf
    decreases D - k
{
    if k < D {
        let h = pow2((D - k - 1) as nat); let p2 = if pos >= h { (pos - h) as nat } else { pos }; let x = cnode(k + 1, path[k as int]);
        lemma_ptree_known(path, k + 1, D, p2, leaf, n); lemma_pstep(path, k, D, pos, leaf);
        let s2 = flat(ptree(path, k + 1, D, p2, leaf));
        lemma_contains_concat(seq![x], s2, n); lemma_contains_concat(s2, seq![x], n);
        if seq![x].contains(n) { assert(seq![x][0] == n); }
    } else { assert(flat(ptree(path, k, D, pos, leaf))[0] == leaf); }
}
pub proof fn theorem_placed_concealed(b0: &MerkleBlock, b1: &MerkleBlock, keep: Seq<ProtocolId>)
    requires b0.ok(), b0.placed(), b1.ok(), b1.depth == b0.depth, b1.cofactor == b0.cofactor,
        b1.cs() == b0.cs() || b1.cs() == hs(b0.cs(), keep, b0.D()) || b1.cs() == flat(reduce(b0.tree(), 0, b0.D(), keep))
    ensures b1.placed() // @C04,C05
{
    let t = b0.tree(); let D = b0.D();
    lemma_ht(t, 0, D, keep); lemma_reduce(t, 0, D, keep); lemma_placed_reduce(t, 0, D, 0, b0.cofactor, keep);
    if b1.cs() == b0.cs() { lemma_the_tree(t, b1.cs(), D); } else if b1.cs() == hs(b0.cs(), keep, D) { lemma_the_tree(ht(t, keep, D), b1.cs(), D); } else { lemma_the_tree(reduce(t, 0, D, keep), b1.cs(), D); }
}
}
