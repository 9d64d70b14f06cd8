// consequences of the contracts: concealing keeps the commitment, proofs bind
verus! {
/// C04: whatever conceal_except does to the cross-section, the commitment id stays (both outcomes)
pub proof fn theorem_conceal_keeps_commitment(b0: &MerkleBlock, b1: &MerkleBlock, keep: Seq<ProtocolId>)
    requires b0.ok(), b1.ok(), b1.depth == b0.depth, b1.cofactor == b0.cofactor,
        b1.cs() == b0.cs() || b1.cs() == hs(b0.cs(), keep, b0.D()) || b1.cs() == flat(reduce(b0.tree(), 0, b0.D(), keep))
    ensures cid(b1) == cid(b0) // @C04
{
    let t = b0.tree(); let D = b0.D();
    lemma_ht(t, 0, D, keep); lemma_reduce(t, 0, D, keep);
    if b1.cs() == b0.cs() { lemma_the_tree(t, b1.cs(), D); } else if b1.cs() == hs(b0.cs(), keep, D) { lemma_the_tree(ht(t, keep, D), b1.cs(), D); } else { lemma_the_tree(reduce(t, 0, D, keep), b1.cs(), D); }
}
/// C04: with an error nothing but the requested leaves is left known, with success exactly the requested ones
pub proof fn theorem_conceal_known(b0: &MerkleBlock, keep: Seq<ProtocolId>, n: TreeNode)
    requires b0.ok(), n is CommitmentLeaf
    ensures hs(b0.cs(), keep, b0.D()).contains(n) <==> b0.cs().contains(n) && kept(n, keep), // @C04
        flat(reduce(b0.tree(), 0, b0.D(), keep)).contains(n) <==> b0.cs().contains(n) && kept(n, keep), // @C04
{
    let s = b0.cs(); let D = b0.D(); let h = hs(s, keep, D);
    if h.contains(n) { let i = choose|i: int| 0 <= i < h.len() && h[i] == n; assert(hide(s[i], keep, D) == n); assert(s[i] == n); }
    if s.contains(n) && kept(n, keep) { let i = choose|i: int| 0 <= i < s.len() && s[i] == n; assert(h[i] == n); }
    lemma_reduce_leaves(b0.tree(), 0, D, keep, n);
}
pub proof fn lemma_reduce_leaves(t: GT, d: nat, D: nat, keep: Seq<ProtocolId>, n: TreeNode)
    requires n is CommitmentLeaf
    ensures flat(reduce(t, d, D, keep)).contains(n) <==> flat(t).contains(n) && kept(n, keep), // @C04,C05
    decreases t
{
    match t { GT::Node(x) => { assert(flat(t)[0] == x); assert(flat(reduce(t, d, D, keep))[0] == hide(x, keep, D)); }, GT::Br(l, r) => {
        let (a, b) = (reduce(*l, d + 1, D, keep), reduce(*r, d + 1, D, keep));
        lemma_reduce_leaves(*l, d + 1, D, keep, n); lemma_reduce_leaves(*r, d + 1, D, keep, n);
        lemma_contains_concat(flat(*l), flat(*r), n); lemma_contains_concat(flat(a), flat(b), n);
        if is_cn(a) && is_cn(b) {
            assert(flat(a)[0] is ConcealedNode && flat(b)[0] is ConcealedNode);
            assert(flat(reduce(t, d, D, keep)).len() == 1 && flat(reduce(t, d, D, keep))[0] is ConcealedNode);
            assert(!flat(a).contains(n)); assert(!flat(b).contains(n));
        }
    } }
}
pub proof fn lemma_contains_concat(a: Seq<TreeNode>, b: Seq<TreeNode>, n: TreeNode)
    ensures (a + b).contains(n) <==> a.contains(n) || b.contains(n)
{
    if a.contains(n) { let i = choose|i: int| 0 <= i < a.len() && a[i] == n; assert((a + b)[i] == n); }
    if b.contains(n) { let i = choose|i: int| 0 <= i < b.len() && b[i] == n; assert((a + b)[i + a.len()] == n); }
    if (a + b).contains(n) { let i = choose|i: int| 0 <= i < (a + b).len() && (a + b)[i] == n; if i < a.len() { assert(a[i] == n); } else { assert(b[i - a.len()] == n); } }
}

/// hypothesis: two concealed forms are not a collision of the tagged commitment hash
pub open spec fn no_commitment_collision(a: MerkleConcealed, b: MerkleConcealed) -> bool {
    commitment_of(a.depth, a.cofactor, a.merkle_root) == commitment_of(b.depth, b.cofactor, b.merkle_root) ==> concealed_bytes(a.depth, a.cofactor, a.merkle_root) == concealed_bytes(b.depth, b.cofactor, b.merkle_root)
}
/// S has every byte string hashed to compute the tree's root from its nodes
pub open spec fn tcov(t: GT, d: nat, D: nat, S: Set<Seq<u8>>) -> bool decreases t {
    match t { GT::Node(TreeNode::CommitmentLeaf { protocol_id, message }) => S.contains(inhabited_bytes(protocol_id, message)), GT::Node(_) => true,
        GT::Br(l, r) => S.contains(node_bytes(2, d, pow2(D), th(*l, d + 1, D), th(*r, d + 1, D))) && tcov(*l, d + 1, D, S) && tcov(*r, d + 1, D, S) }
}
pub proof fn lemma_commitment_inj(d: u5, cf: u16, r: MerkleHash, d2: u5, cf2: u16, r2: MerkleHash)
    requires no_commitment_collision(conc(d, cf, r), conc(d2, cf2, r2)), d.wf(), d2.wf(), commitment_of(d, cf, r) == commitment_of(d2, cf2, r2)
    ensures d == d2, cf == cf2, r == r2 // @C06,C07
{
    let (s, t) = (concealed_bytes(d, cf, r), concealed_bytes(d2, cf2, r2));
    assert(s == t);
    lemma_le_len(d.n(), 1); lemma_le_len(cf as nat, 2); lemma_le_len(d2.n(), 1); lemma_le_len(cf2 as nat, 2); lemma2_to64();
    assert(s.subrange(0, 1) =~= le(d.n(), 1)); assert(t.subrange(0, 1) =~= le(d2.n(), 1));
    assert(s.subrange(1, 3) =~= le(cf as nat, 2)); assert(t.subrange(1, 3) =~= le(cf2 as nat, 2));
    assert(s.subrange(3, 35) =~= r.0.a@); assert(t.subrange(3, 35) =~= r2.0.a@);
    lemma_le_inj(d.n(), d2.n(), 1); lemma_le_inj(cf as nat, cf2 as nat, 2); lemma_bytes32(r.0, r2.0);
}
pub proof fn lemma_node_hash_inj(d: nat, w: nat, a: MerkleHash, b: MerkleHash, a2: MerkleHash, b2: MerkleHash, S: Set<Seq<u8>>)
    requires collision_free(S), S.contains(node_bytes(2, d, w, a, b)), S.contains(node_bytes(2, d, w, a2, b2)), d < 32, w <= 0x8000_0000, node_hash(d, w, a, b) == node_hash(d, w, a2, b2)
    ensures a == a2, b == b2
{
    reveal(node_hash); lemma2_to64(); lemma_pow2_strictly_increases(32, 256);
    lemma_node_bytes_inj(2, d, w, a, b, 2, d, w, a2, b2);
}
/// descending along the path: the leaf's hash is the hash in the leaf's slot
pub proof fn lemma_bind(path: Seq<MerkleHash>, k: nat, D: nat, pos: nat, leaf: TreeNode, s: Seq<TreeNode>, S: Set<Seq<u8>>)
    requires collision_free(S), tcov(ptree(path, k, D, pos, leaf), k, D, S), tcov(full(s, k, D), k, D, S), k <= D < 32, s.len() == pow2((D - k) as nat), pos < s.len(), th(ptree(path, k, D, pos, leaf), k, D) == th(full(s, k, D), k, D)
    ensures nhash(leaf) == nhash(s[pos as int]) // @C06
    decreases D - k
{
    lemma2_to64();
    if k < D {
        lemma_pow2_half(D, k); let h = pow2((D - k - 1) as nat);
        lemma_p31(D);
        let (a, b) = (full(s.take(h as int), k + 1, D), full(s.skip(h as int), k + 1, D));
        let n = GT::Node(cnode(k + 1, path[k as int]));
        if pos >= h {
            let q = ptree(path, k + 1, D, (pos - h) as nat, leaf);
            lemma_node_hash_inj(k, pow2(D), th(n, k + 1, D), th(q, k + 1, D), th(a, k + 1, D), th(b, k + 1, D), S);
            lemma_bind(path, k + 1, D, (pos - h) as nat, leaf, s.skip(h as int), S);
        } else {
            let q = ptree(path, k + 1, D, pos, leaf);
            lemma_node_hash_inj(k, pow2(D), th(q, k + 1, D), th(n, k + 1, D), th(a, k + 1, D), th(b, k + 1, D), S);
            lemma_bind(path, k + 1, D, pos, leaf, s.take(h as int), S);
        }
    }
}
proof fn lemma_ptree_leaf(path: Seq<MerkleHash>, k: nat, D: nat, pos: nat, leaf: TreeNode, S: Set<Seq<u8>>)
    requires k <= D, tcov(ptree(path, k, D, pos, leaf), k, D, S), leaf is CommitmentLeaf
    ensures S.contains(inhabited_bytes(leaf->protocol_id, leaf->message))
    decreases D - k
{ if k < D { let h = pow2((D - k - 1) as nat); lemma_ptree_leaf(path, k + 1, D, if pos >= h { (pos - h) as nat } else { pos }, leaf, S); } }
/// messages are stored at their protocol's slot
pub open spec fn placed_map(map: Map<u32, (ProtocolId, Message)>, cofactor: u16, D: nat) -> bool {
    forall|k: u32| #[trigger] map.contains_key(k) ==> k < pow2(D) && slot(map[k].0, cofactor, D) == k
}
/// S has the leaf preimages of the tree
pub open spec fn slots_cov(tree: &MerkleTree, S: Set<Seq<u8>>) -> bool {
    forall|i: u32| i < pow2(tree.D()) ==> S.contains(#[trigger] slot_leaf(tree.map.c@, tree.entropy, i).sb())
}
/// C06: a proof which verifies to the commitment of a tree is for exactly the message the tree holds in the slot of that protocol
pub proof fn theorem_proof_binds(tree: &MerkleTree, proof: &MerkleProof, p: ProtocolId, m: Message, S: Set<Seq<u8>>)
    requires collision_free(S), tcov(proof.ptree(p, m), 0, proof.ph().len(), S), tcov(full(tree.slots(), 0, tree.D()), 0, tree.D(), S), slots_cov(tree, S),
        no_commitment_collision(proof.conc(p, m), conc(tree.depth, tree.cofactor, tree.root_spec())), tree.depth.wf(), proof.inv(), proof.fits(p), proof.cid_spec(p, m) == cid(tree)
    ensures proof.ph().len() == tree.D() && proof.cofactor == tree.cofactor, // @C06
        tree.map.c@.contains_key(slot(p, tree.cofactor, tree.D()) as u32) && tree.map.c@[slot(p, tree.cofactor, tree.D()) as u32] == (p, m), // @C06
{
    let D = tree.D(); let s = tree.slots(); let leaf = TreeNode::CommitmentLeaf { protocol_id: p, message: m };
    lemma_tree_slots(tree.map.c@, tree.entropy, tree.depth);
    lemma_commitment_of(conc(tree.depth, tree.cofactor, tree.root_spec()));
    lemma_commitment_inj(u5 { v: proof.ph().len() as u8 }, proof.cofactor, th(proof.ptree(p, m), 0, proof.ph().len()), tree.depth, tree.cofactor, tree.root_spec());
    assert(proof.ph().len() == D);
    lemma_slot(p, tree.cofactor, D);
    let pos = proof.pos as nat;
    lemma_bind(proof.ph(), 0, D, pos, leaf, s, S);
    reveal(leaf_hash); reveal(entropy_hash);
    let i = proof.pos;
    assert((pos as int) as u32 == i);
    lemma_leaf_cid(slot_leaf(tree.map.c@, tree.entropy, i));
    lemma_ptree_leaf(proof.ph(), 0, D, pos, leaf, S);
    if tree.map.c@.contains_key(i) {
        let (p2, m2) = tree.map.c@[i];
        assert(nhash(s[pos as int]) == leaf_hash(p2, m2));
        lemma_inhabited_inj(p, m, p2, m2);
    } else {
        assert(nhash(s[pos as int]) == entropy_hash(tree.entropy, i));
        assert(inhabited_bytes(p, m)[0] == 0x10); assert(entropy_bytes(tree.entropy, i)[0] == 0x11);
    }
}
/// C06: every element of the path, depth and cofactor take part in the commitment
pub proof fn theorem_path_counts(a: &MerkleProof, b: &MerkleProof, p: ProtocolId, m: Message, S: Set<Seq<u8>>)
    requires collision_free(S), tcov(a.ptree(p, m), 0, a.ph().len(), S), tcov(b.ptree(p, m), 0, b.ph().len(), S), no_commitment_collision(a.conc(p, m), b.conc(p, m)), a.inv(), b.inv(), a.fits(p), b.fits(p), a.cid_spec(p, m) == b.cid_spec(p, m)
    ensures a.ph() == b.ph(), a.cofactor == b.cofactor, a.pos == b.pos // @C06
{
    lemma_commitment_inj(u5 { v: a.ph().len() as u8 }, a.cofactor, th(a.ptree(p, m), 0, a.ph().len()), u5 { v: b.ph().len() as u8 }, b.cofactor, th(b.ptree(p, m), 0, b.ph().len()));
    assert(a.ph().len() == b.ph().len());
    lemma_path_inj(a.ph(), b.ph(), 0, a.ph().len(), a.pos as nat, TreeNode::CommitmentLeaf { protocol_id: p, message: m }, S);
    assert(a.ph() =~= b.ph());
}
pub proof fn lemma_path_inj(a: Seq<MerkleHash>, b: Seq<MerkleHash>, k: nat, D: nat, pos: nat, leaf: TreeNode, S: Set<Seq<u8>>)
    requires collision_free(S), tcov(ptree(a, k, D, pos, leaf), k, D, S), tcov(ptree(b, k, D, pos, leaf), k, D, S), k <= D < 32, th(ptree(a, k, D, pos, leaf), k, D) == th(ptree(b, k, D, pos, leaf), k, D)
    ensures forall|i: int| k <= i < D ==> a[i] == b[i]
    decreases D - k
{
    if k < D {
        let h = pow2((D - k - 1) as nat); lemma_p31(D);
        let (x, y) = (GT::Node(cnode(k + 1, a[k as int])), GT::Node(cnode(k + 1, b[k as int])));
        if pos >= h {
            lemma_node_hash_inj(k, pow2(D), th(x, k + 1, D), th(ptree(a, k + 1, D, (pos - h) as nat, leaf), k + 1, D), th(y, k + 1, D), th(ptree(b, k + 1, D, (pos - h) as nat, leaf), k + 1, D), S);
            lemma_path_inj(a, b, k + 1, D, (pos - h) as nat, leaf, S);
        } else {
            lemma_node_hash_inj(k, pow2(D), th(ptree(a, k + 1, D, pos, leaf), k + 1, D), th(x, k + 1, D), th(ptree(b, k + 1, D, pos, leaf), k + 1, D), th(y, k + 1, D), S);
            lemma_path_inj(a, b, k + 1, D, pos, leaf, S);
        }
    }
}
}
