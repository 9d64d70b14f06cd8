// commit_verify/src/mpc/block.rs: extraction of proofs
verus! {
/// a strictly ascending key sequence over 1..=n is 1, 2, .., n
pub proof fn lemma_ascending(s: Seq<u5>, n: nat)
    requires s.len() == n, forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).v < (#[trigger] s[j]).v, forall|i: int| 0 <= i < s.len() ==> 1 <= (#[trigger] s[i]).v <= n
    ensures forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).v == i + 1
{
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).v == i + 1 by { lemma_asc_lo(s, n, i); lemma_asc_hi(s, n, i); }
}
proof fn lemma_asc_lo(s: Seq<u5>, n: nat, i: int)
    requires 0 <= i < s.len(), forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).v < (#[trigger] s[j]).v, forall|i: int| 0 <= i < s.len() ==> 1 <= (#[trigger] s[i]).v <= n
    ensures s[i].v >= i + 1 decreases i
{ if i > 0 { lemma_asc_lo(s, n, i - 1); assert(s[i - 1].v < s[i].v); } else { assert(1 <= s[0].v); } }
proof fn lemma_asc_hi(s: Seq<u5>, n: nat, i: int)
    requires s.len() == n, 0 <= i < s.len(), forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).v < (#[trigger] s[j]).v, forall|i: int| 0 <= i < s.len() ==> 1 <= (#[trigger] s[i]).v <= n
    ensures s[i].v <= i + 1 decreases n - i
{ if i + 1 < s.len() { lemma_asc_hi(s, n, i + 1); assert(s[i].v < s[i + 1].v); } else { assert(s[i].v <= n); } }
/// the values of the map of concealed nodes, in key order, are the path
pub proof fn lemma_path_values(map: Map<u5, MerkleHash>, path: Seq<MerkleHash>, D: nat)
    requires D == path.len(), D < 32, map.dom().finite(), forall|e: u5| #[trigger] map.contains_key(e) <==> 1 <= e.v <= D, forall|e: u5| #[trigger] map.contains_key(e) ==> map[e] == path[e.v - 1]
    ensures sorted_keys(map.dom()).map_values(|k: u5| map[k]) =~= path, map.dom().len() == D // @C05
{
    broadcast use {axiom_sorted_keys, axiom_sorted_u5};
    let s = sorted_keys(map.dom());
    lemma_u5_count(D);
    assert(map.dom() =~= u5_upto(D));
    assert forall|i: int| 0 <= i < s.len() implies 1 <= (#[trigger] s[i]).v <= D by { assert(map.dom().contains(s[i])); }
    lemma_ascending(s, D);
    assert forall|i: int| 0 <= i < D implies map[#[trigger] s[i]] == path[i] by { assert(map.dom().contains(s[i])); assert(map.contains_key(s[i])); }
}
pub open spec fn u5_upto(n: nat) -> Set<u5> decreases n { if n == 0 { Set::empty() } else { u5_upto((n - 1) as nat).insert(u5 { v: n as u8 }) } }
pub proof fn lemma_u5_count(n: nat) requires n < 32 ensures u5_upto(n).finite(), u5_upto(n).len() == n, forall|e: u5| #[trigger] u5_upto(n).contains(e) <==> 1 <= e.v <= n decreases n
{ if n > 0 { lemma_u5_count((n - 1) as nat); } }

impl MerkleBlock {
    pub open spec fn conceal_other_ok(&self, p: ProtocolId) -> bool { known(self.cs(), p) }
//% fn commit_verify/src/mpc/block.rs MerkleBlock::conceal_other
//% ret res
//% props C04 C05
//% spec
      requires old(self).ok()
      ensures final(self).ok(), res is Ok ==> final(self).entropy is None, res is Err ==> final(self).entropy is None || final(self).entropy == old(self).entropy, // @C04
         final(self).depth == old(self).depth, final(self).cofactor == old(self).cofactor, final(self).method == old(self).method, // @C04
         res is Ok <==> known(old(self).cs(), protocol), // @C04,C05
         res matches Err(e) ==> e.0 == protocol, // @C04,C05
         res is Err ==> final(self).cs() == hs(old(self).cs(), seq![protocol], old(self).D()) || final(self).cs() == old(self).cs(), // @C04
         res is Ok ==> final(self).cs() == flat(reduce(old(self).tree(), 0, old(self).D(), seq![protocol])), // @C04,C05
//% start
    broadcast use axiom_array_as_ref;
    proof { assert([protocol]@ =~= seq![protocol]); assert(seq![protocol][0] == protocol); }
//% end
    /// what is demanded of an inclusion proof made from this block for the protocol p
    pub open spec fn proof_for(&self, p: ProtocolId, r: MerkleProof) -> bool {
        r.inv() && r.method == self.method && r.cofactor == self.cofactor && r.ph().len() == self.D() && r.fits(p) && r.pos == slot(p, self.cofactor, self.D())
        && r.ph() == rpath(self.tree(), 0, self.D(), slot(p, self.cofactor, self.D()))
        && (forall|m: Message| #[trigger] self.known_leaf(p, m) ==> r.cid_spec(p, m) == self.cid_spec())
    }
//% fn commit_verify/src/mpc/block.rs MerkleBlock::into_merkle_proof
//% ret r
//% props C05
//% spec
      requires self.ok(), self.placed()
      ensures r is Ok <==> known(self.cs(), protocol_id), // @C05
         r matches Err(e) ==> e.0 == protocol_id, // @C05
         r matches Ok(pr) ==> self.proof_for(protocol_id, pr), // @C05
//% start
    let ghost D = self.D(); let ghost t0 = self.tree(); let ghost s0 = self.cs(); let ghost b0 = self; let ghost cof = self.cofactor;
    let ghost pos = slot(protocol_id, cof, D);
    let ghost path = rpath(t0, 0, D, pos);
    let ghost m = if known(s0, protocol_id) { the_message(s0, protocol_id) } else { arbitrary() };
    proof {
        lemma_slot(protocol_id, cof, D);
        if known(s0, protocol_id) {
            lemma_known_message(s0, protocol_id);
            lemma_rpath_len(t0, 0, D, 0, cof, protocol_id, m); assert(path.skip(0) =~= path);
            lemma_comb(t0, 0, D, 0, cof, protocol_id, m, path);
            lemma_ptree_flat(path, 0, D, pos, cleaf(protocol_id, m));
            lemma_reduce(t0, 0, D, seq![protocol_id]);
            assert forall|m2: Message| #[trigger] b0.known_leaf(protocol_id, m2) implies m2 == m by { lemma_placed_unique(t0, 0, D, 0, cof, protocol_id, m, m2); }
        }
    }
//% loop 1 for inv
        invariant it1.seq() == this.cs().map_values(|x: TreeNode| &x), this.cs() == flat(ptree(path, 0, D, pos, cleaf(protocol_id, m))), D < 32, path.len() == D,
            map@.dom().finite(),
            forall|i: int| 0 <= i < this.cs().len() && (#[trigger] this.cs()[i]) is ConcealedNode ==> 0 < this.cs()[i]->depth.n() <= D && this.cs()[i]->hash == path[this.cs()[i]->depth.n() - 1],
            forall|i: int, j: int| 0 <= i < j < this.cs().len() && (#[trigger] this.cs()[i]) is ConcealedNode && (#[trigger] this.cs()[j]) is ConcealedNode ==> this.cs()[i]->depth != this.cs()[j]->depth,
            forall|e: u5| #[trigger] map@.contains_key(e) <==> exists|i: int| 0 <= i < it1.index@ && (#[trigger] this.cs()[i]) is ConcealedNode && this.cs()[i]->depth == e,
            forall|e: u5| #[trigger] map@.contains_key(e) ==> map@[e] == path[e.v - 1],
//% loop 1 for after
    proof {
        assert forall|e: u5| #[trigger] map@.contains_key(e) <==> 1 <= e.v <= D by {
            if 1 <= e.v <= D { let n = cnode(e.v as nat, path[e.v - 1]); assert(this.cs().contains(n)); let i = choose|i: int| 0 <= i < this.cs().len() && this.cs()[i] == n; assert(this.cs()[i] is ConcealedNode && this.cs()[i]->depth == e); }
        }
        lemma_path_values(map@, path, D);
    }
//% loop 2 pipe inv
        invariant it2.seq() == path, __acc1@ =~= path.take(it2.index@ as int),
//% end
//% fn commit_verify/src/mpc/block.rs MerkleBlock::to_merkle_proof
//% ret r
//% props C05
//% spec
      requires self.ok(), self.placed()
      ensures r is Ok <==> known(self.cs(), protocol_id), // @C05
         r matches Err(e) ==> e.0 == protocol_id, // @C05
         r matches Ok(pr) ==> self.proof_for(protocol_id, pr), // @C05
//% end
}
pub open spec fn the_message(s: Seq<TreeNode>, p: ProtocolId) -> Message { choose|m: Message| #[trigger] s.contains(cleaf(p, m)) }
pub proof fn lemma_known_message(s: Seq<TreeNode>, p: ProtocolId)
    requires known(s, p) ensures s.contains(cleaf(p, the_message(s, p)))
{ let i = choose|i: int| 0 <= i < s.len() && #[trigger] is_leaf_of(s[i], p); assert(s[i] == cleaf(p, s[i]->message)); assert(s.contains(cleaf(p, s[i]->message))); }
/// protocols of the known leaves, in the order of their slots
pub open spec fn kids(s: Seq<TreeNode>) -> Seq<ProtocolId> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { match s.last() { TreeNode::CommitmentLeaf { protocol_id, .. } => kids(s.drop_last()).push(protocol_id), _ => kids(s.drop_last()) } }
}
pub proof fn lemma_kids_step(s: Seq<TreeNode>, i: int)
    requires 0 <= i < s.len()
    ensures kids(s.take(i + 1)) == (match s[i] { TreeNode::CommitmentLeaf { protocol_id, .. } => kids(s.take(i)).push(protocol_id), _ => kids(s.take(i)) })
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(i + 1).last() == s[i]); }
/// the list holds exactly the known protocols, each of them once
pub proof fn lemma_kids(t: GT, s: Seq<TreeNode>, n: int, D: nat, cof: u16)
    requires wf(t, 0, D), tplaced(t, 0, D, 0, cof), s == flat(t), 0 <= n <= s.len()
    ensures kids(s.take(n)).no_duplicates(), // @C05
        forall|p: ProtocolId| #[trigger] kids(s.take(n)).contains(p) <==> exists|i: int| 0 <= i < n && #[trigger] is_leaf_of(s[i], p), // @C05
        kids(s.take(n)).len() <= n
    decreases n
{
    if n > 0 {
        lemma_kids(t, s, n - 1, D, cof); lemma_kids_step(s, n - 1);
        let a = kids(s.take(n - 1)); let b = kids(s.take(n));
        match s[n - 1] { TreeNode::CommitmentLeaf { protocol_id, message } => {
            if a.contains(protocol_id) {
                let i = choose|i: int| 0 <= i < n - 1 && #[trigger] is_leaf_of(s[i], protocol_id);
                lemma_placed_at(t, 0, D, 0, cof, i); lemma_placed_at(t, 0, D, 0, cof, n - 1); lemma_off_strict(s, i as nat, (n - 1) as nat, D);
                assert(false);
            }
            assert forall|p: ProtocolId| #[trigger] b.contains(p) <==> exists|i: int| 0 <= i < n && #[trigger] is_leaf_of(s[i], p) by {
                if b.contains(p) { let k = choose|k: int| 0 <= k < b.len() && b[k] == p; if k < a.len() { assert(a[k] == p); assert(a.contains(p)); } else { assert(is_leaf_of(s[n - 1], p)); } }
                if exists|i: int| 0 <= i < n && #[trigger] is_leaf_of(s[i], p) { let i = choose|i: int| 0 <= i < n && #[trigger] is_leaf_of(s[i], p);
                    if i < n - 1 { assert(a.contains(p)); let k = choose|k: int| 0 <= k < a.len() && a[k] == p; assert(b[k] == p); } else { assert(b[a.len() as int] == p); } }
            }
        }, _ => {
            assert forall|p: ProtocolId| #[trigger] b.contains(p) <==> exists|i: int| 0 <= i < n && #[trigger] is_leaf_of(s[i], p) by {
                if exists|i: int| 0 <= i < n && #[trigger] is_leaf_of(s[i], p) { let i = choose|i: int| 0 <= i < n && #[trigger] is_leaf_of(s[i], p); assert(i < n - 1); }
            }
        } }
    }
}
impl MerkleBlock {
    pub proof fn lemma_kids_of(&self)
        requires self.ok(), self.placed()
        ensures kids(self.cs()).no_duplicates(), forall|p: ProtocolId| #[trigger] kids(self.cs()).contains(p) <==> known(self.cs(), p), kids(self.cs()).len() <= self.cs().len(), // @C05
    {
        lemma_kids(self.tree(), self.cs(), self.cs().len() as int, self.D(), self.cofactor); assert(self.cs().take(self.cs().len() as int) =~= self.cs());
        assert forall|p: ProtocolId| #[trigger] kids(self.cs()).contains(p) <==> known(self.cs(), p) by {}
    }
//% fn commit_verify/src/mpc/block.rs MerkleBlock::known_protocol_ids
//% ret r
//% props C05
//% collect-tail
//% sub impl Iterator<Item = ProtocolId> + '_ => Vec<ProtocolId>
//% spec
      ensures r@ == kids(self.cs()), // @C05
//% loop 1 pipe inv
        invariant it1.seq() == self.cs().map_values(|x: TreeNode| &x), __acc1@ =~= kids(self.cs().take(it1.index@ as int)),
//% loop 1 pipe start
        proof { lemma_kids_step(self.cs(), it1.index@ as int); }
//% loop 1 pipe after
        proof { assert(self.cs().take(self.cs().len() as int) =~= self.cs()); }
//% end
//% fn commit_verify/src/mpc/block.rs MerkleBlock::to_known_message_map
//% ret r
//% props C05
//% tfi map
//% spec
      requires self.ok(), self.placed(), kids(self.cs()).len() <= U24MAX
      ensures r.wfm(), forall|p: ProtocolId| #[trigger] r.c@.contains_key(p) <==> known(self.cs(), p), // @C05
         forall|p: ProtocolId, m: Message| #[trigger] self.known_leaf(p, m) ==> r.c@[p] == m, // @C05
//% start
    proof { self.lemma_kids_of(); }
//% loop 1 pipe inv
        invariant it1.seq() == self.cs().map_values(|x: TreeNode| &x), self.ok(), self.placed(),
            __acc1@.dom().finite(), __acc1@.dom().len() <= kids(self.cs().take(it1.index@ as int)).len(),
            forall|p: ProtocolId| #[trigger] __acc1@.contains_key(p) <==> exists|i: int| 0 <= i < it1.index@ && #[trigger] is_leaf_of(self.cs()[i], p),
            forall|p: ProtocolId| #[trigger] __acc1@.contains_key(p) ==> self.known_leaf(p, __acc1@[p]),
//% loop 1 pipe start
        let ghost acc0 = __acc1@;
        proof { lemma_kids_step(self.cs(), it1.index@ as int); }
//% loop 1 pipe end
        proof { let i0 = it1.index@ as int; let n = self.cs()[i0];
            if n is CommitmentLeaf { assert(self.cs().contains(cleaf(n->protocol_id, n->message))); assert(is_leaf_of(n, n->protocol_id)); }
        }
//% loop 1 pipe after
        proof { assert(self.cs().take(self.cs().len() as int) =~= self.cs());
            assert forall|p: ProtocolId, m: Message| #[trigger] self.known_leaf(p, m) implies __acc1@.contains_key(p) && __acc1@[p] == m by {
                let i = choose|i: int| 0 <= i < self.cs().len() && self.cs()[i] == cleaf(p, m); assert(is_leaf_of(self.cs()[i], p)); assert(__acc1@.contains_key(p)); assert(self.known_leaf(p, __acc1@[p]));
                lemma_placed_unique(self.tree(), 0, self.D(), 0, self.cofactor, p, m, __acc1@[p]);
            } }
//% end
    pub open spec fn proofs_upto(&self, r: Seq<(ProtocolId, MerkleProof)>, n: int) -> bool {
        r.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] r[i]).0 == kids(self.cs())[i] && self.proof_for(kids(self.cs())[i], r[i].1)
    }
//% fn commit_verify/src/mpc/block.rs MerkleBlock::into_known_proofs
//% ret r
//% props C05
//% collect-tail
//% sub impl Iterator<Item = (ProtocolId, MerkleProof)> => Vec<(ProtocolId, MerkleProof)>
//% sub self.known_protocol_ids() => self.known_protocol_ids().into_iter()
//% spec
      requires self.ok(), self.placed()
      ensures r@.len() == kids(self.cs()).len(), // @C05
         forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == kids(self.cs())[i] && self.proof_for(kids(self.cs())[i], r@[i].1), // @C05
//% start
    proof { self.lemma_kids_of(); }
//% loop 2 pipe inv
        invariant it2.seq() == kids(self.cs()), __acc2@ =~= kids(self.cs()).take(it2.index@ as int),
//% loop 1 pipe inv
        invariant it1.seq() == kids(self.cs()), self.ok(), self.placed(), self.proofs_upto(__acc1@, it1.index@ as int), forall|p: ProtocolId| #[trigger] kids(self.cs()).contains(p) <==> known(self.cs(), p),
//% loop 1 pipe start
        proof { assert(kids(self.cs()).contains(kids(self.cs())[it1.index@ as int])); }
//% end
}
pub open spec fn proof_listed(r: Seq<(ProtocolId, MerkleProof)>, p: ProtocolId) -> bool { exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == p }
pub open spec fn stored(map: Map<u32, (ProtocolId, Message)>, p: ProtocolId) -> bool { exists|k: u32| map.contains_key(k) && (#[trigger] map[k]).0 == p }
impl MerkleTree {
    /// a tree as try_commit builds it
    pub open spec fn ok(&self) -> bool { self.depth.wf() && placed_map(self.map.c@, self.cofactor, self.D()) }
//% fn commit_verify/src/mpc/tree.rs MerkleTree::into_proofs
//% ret r
//% props C05
//% sub impl Iterator<Item = (ProtocolId, MerkleProof)> => Vec<(ProtocolId, MerkleProof)>
//% sub MerkleBlock::from => MerkleBlock::from_tree
//% spec
      requires self.ok()
      ensures forall|p: ProtocolId| #[trigger] proof_listed(r@, p) <==> stored(self.map.c@, p), // @C05
         forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).0 != (#[trigger] r@[j]).0, // @C05
         forall|i: int, k: u32| 0 <= i < r@.len() && #[trigger] self.map.c@.contains_key(k) && self.map.c@[k].0 == (#[trigger] r@[i]).0 ==> r@[i].1.fits(r@[i].0) && r@[i].1.cid_spec(r@[i].0, self.map.c@[k].1) == cid(&self), // @C05
//% start
    let ghost t0 = self;
//% let block 1 after
    let ghost b0 = block;
    proof { theorem_placed_from_tree(&t0, &block); block.lemma_kids_of(); lemma_commitment_of(block.conc()); lemma_commitment_of(conc(t0.depth, t0.cofactor, t0.root_spec())); lemma_tree_slots(t0.map.c@, t0.entropy, t0.depth); }
//% tail bind
    proof {
        let ks = kids(b0.cs());
        assert forall|p: ProtocolId| #[trigger] proof_listed(r@, p) <==> stored(t0.map.c@, p) by {
            if proof_listed(r@, p) { let i = choose|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == p; assert(ks[i] == p); assert(ks.contains(p)); lemma_known_message(b0.cs(), p); assert(b0.known_leaf(p, the_message(b0.cs(), p))); }
            if stored(t0.map.c@, p) { let k = choose|k: u32| t0.map.c@.contains_key(k) && (#[trigger] t0.map.c@[k]).0 == p;
                let m = t0.map.c@[k].1; assert(t0.map.c@[k] == (p, m)); assert(b0.known_leaf(p, m)); let i = choose|i: int| 0 <= i < b0.cs().len() && b0.cs()[i] == cleaf(p, m); assert(is_leaf_of(b0.cs()[i], p));
                assert(ks.contains(p)); let x = choose|x: int| 0 <= x < ks.len() && ks[x] == p; assert(r@[x].0 == p); }
        }
        assert forall|i: int, k: u32| 0 <= i < r@.len() && #[trigger] t0.map.c@.contains_key(k) && t0.map.c@[k].0 == (#[trigger] r@[i]).0 implies r@[i].1.fits(r@[i].0) && r@[i].1.cid_spec(r@[i].0, t0.map.c@[k].1) == cid(&t0) by {
            let (p, m) = t0.map.c@[k]; assert(t0.map.c@[k] == (p, m)); assert(b0.known_leaf(p, m)); assert(b0.proof_for(ks[i], r@[i].1)); }
    }
//% end
}
}
