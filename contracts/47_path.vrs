// ghost: trees described by a merkle path
verus! {
/// the tree whose only known leaf is `leaf` at `pos`, hashing partners from the path (root side first)
pub open spec fn ptree(path: Seq<MerkleHash>, k: nat, D: nat, pos: nat, leaf: TreeNode) -> GT decreases D - k {
    if k >= D { GT::Node(leaf) } else {
        let h = pow2((D - k - 1) as nat);
        let partner = Box::new(GT::Node(cnode(k + 1, path[k as int])));
        if pos >= h { GT::Br(partner, Box::new(ptree(path, k + 1, D, (pos - h) as nat, leaf))) }
        else { GT::Br(Box::new(ptree(path, k + 1, D, pos, leaf)), partner) }
    }
}
pub proof fn lemma_pstep(path: Seq<MerkleHash>, k: nat, D: nat, pos: nat, leaf: TreeNode)
    requires k < D, D <= path.len()
    ensures ({ let h = pow2((D - k - 1) as nat); let n = cnode(k + 1, path[k as int]);
        flat(ptree(path, k, D, pos, leaf)) =~= (if pos >= h { seq![n] + flat(ptree(path, k + 1, D, (pos - h) as nat, leaf)) } else { flat(ptree(path, k + 1, D, pos, leaf)) + seq![n] }) })
{ let n = cnode(k + 1, path[k as int]); assert(flat(GT::Node(n)) == seq![n]); let h = pow2((D - k - 1) as nat);
  if pos >= h { assert(flat(ptree(path, k, D, pos, leaf)) == flat(GT::Node(n)) + flat(ptree(path, k + 1, D, (pos - h) as nat, leaf))); }
  else { assert(flat(ptree(path, k, D, pos, leaf)) == flat(ptree(path, k + 1, D, pos, leaf)) + flat(GT::Node(n))); } }
pub proof fn lemma_ptree(path: Seq<MerkleHash>, k: nat, D: nat, pos: nat, leaf: TreeNode)
    requires k <= D < 32, ndepth(leaf, D) == D
    ensures wf(ptree(path, k, D, pos, leaf), k, D)
    decreases D - k
{
    if k < D { let h = pow2((D - k - 1) as nat); lemma_ptree(path, k + 1, D, if pos >= h { (pos - h) as nat } else { pos }, leaf);
        assert(wf(GT::Node(cnode(k + 1, path[k as int])), k + 1, D)); }
}
/// cross-section: completed left part, the rest of the path's tree, completed right part (collected bottom-up)
pub open spec fn wsec(path: Seq<MerkleHash>, k: nat, D: nat, pos: nat, leaf: TreeNode, dir: Seq<TreeNode>, rev: Seq<TreeNode>) -> Seq<TreeNode> {
    dir + flat(ptree(path, k, D, pos, leaf)) + rev.reverse()
}
pub proof fn lemma_wstep(path: Seq<MerkleHash>, k: nat, D: nat, pos: nat, leaf: TreeNode, dir: Seq<TreeNode>, rev: Seq<TreeNode>)
    requires k < D, D <= path.len()
    ensures ({ let h = pow2((D - k - 1) as nat); let n = cnode(k + 1, path[k as int]);
        wsec(path, k, D, pos, leaf, dir, rev) == (if pos >= h { wsec(path, k + 1, D, (pos - h) as nat, leaf, dir.push(n), rev) } else { wsec(path, k + 1, D, pos, leaf, dir, rev.push(n)) }) })
{
    lemma_pstep(path, k, D, pos, leaf);
    let h = pow2((D - k - 1) as nat); let n = cnode(k + 1, path[k as int]);
    if pos >= h { assert(wsec(path, k, D, pos, leaf, dir, rev) =~= wsec(path, k + 1, D, (pos - h) as nat, leaf, dir.push(n), rev)); }
    else { assert(rev.push(n).reverse() =~= seq![n] + rev.reverse()); assert(wsec(path, k, D, pos, leaf, dir, rev) =~= wsec(path, k + 1, D, pos, leaf, dir, rev.push(n))); }
}
}
