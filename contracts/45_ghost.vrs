// ghost: merkle trees, their cross-sections and hashes (lemmas for mpc/block.rs, mpc/tree.rs)
verus! {
//% item commit_verify/src/mpc/block.rs TreeNode {
//%   derive Copy Clone
//% }
proof fn lemma_p31(e: nat) requires e <= 31 ensures pow2(e) <= 0x8000_0000, pow2(e) >= 1
{ lemma_pow2_pos(e); lemma2_to64(); if e < 31 { lemma_pow2_strictly_increases(e, 31); } }

pub open spec fn is_conc(n: TreeNode) -> bool { n is ConcealedNode }
pub open spec fn ndepth(n: TreeNode, D: nat) -> nat { match n { TreeNode::ConcealedNode{depth,..} => depth.n(), _ => D } }
pub open spec fn nhash(n: TreeNode) -> MerkleHash { match n { TreeNode::ConcealedNode{hash,..} => hash, TreeNode::CommitmentLeaf{protocol_id,message} => leaf_hash(protocol_id,message) } }

pub ghost enum GT { Node(TreeNode), Br(Box<GT>, Box<GT>) }

pub open spec fn flat(t: GT) -> Seq<TreeNode> decreases t {
    match t { GT::Node(n) => seq![n], GT::Br(l, r) => flat(*l) + flat(*r) }
}
pub open spec fn wf(t: GT, d: nat, D: nat) -> bool decreases t {
    match t { GT::Node(n) => d <= D && ndepth(n, D) == d, GT::Br(l, r) => d < D && wf(*l, d+1, D) && wf(*r, d+1, D) }
}
pub open spec fn th(t: GT, d: nat, D: nat) -> MerkleHash decreases t {
    match t { GT::Node(n) => nhash(n), GT::Br(l, r) => node_hash(d, pow2(D), th(*l, d+1, D), th(*r, d+1, D)) }
}
pub open spec fn kept(n: TreeNode, keep: Seq<ProtocolId>) -> bool {
    match n { TreeNode::CommitmentLeaf{protocol_id,..} => keep.contains(protocol_id), _ => false }
}
pub open spec fn cnode(d: nat, h: MerkleHash) -> TreeNode { TreeNode::ConcealedNode { depth: u5 { v: d as u8 }, hash: h } }
pub open spec fn is_cn(t: GT) -> bool { t matches GT::Node(n) && is_conc(n) }
pub open spec fn hide(n: TreeNode, keep: Seq<ProtocolId>, D: nat) -> TreeNode {
    if is_conc(n) || kept(n, keep) { n } else { cnode(D, nhash(n)) }
}
pub open spec fn reduce(t: GT, d: nat, D: nat, keep: Seq<ProtocolId>) -> GT decreases t {
    match t {
        GT::Node(n) => GT::Node(hide(n, keep, D)),
        GT::Br(l, r) => {
            let a = reduce(*l, d+1, D, keep);
            let b = reduce(*r, d+1, D, keep);
            if is_cn(a) && is_cn(b) { GT::Node(cnode(d, node_hash(d, pow2(D), th(a, d+1, D), th(b, d+1, D)))) }
            else { GT::Br(Box::new(a), Box::new(b)) }
        }
    }
}
// width of a prefix
pub open spec fn nwidth(n: TreeNode, D: nat) -> nat { pow2((D - ndepth(n, D)) as nat) }
pub open spec fn off(s: Seq<TreeNode>, i: nat, D: nat) -> nat decreases i {
    if i == 0 || i > s.len() { 0 } else { off(s, (i-1) as nat, D) + nwidth(s[i-1], D) }
}
pub open spec fn depths_ok(s: Seq<TreeNode>, D: nat) -> bool { forall|i: int| 0 <= i < s.len() ==> ndepth(#[trigger] s[i], D) <= D }

pub proof fn lemma_off_concat(a: Seq<TreeNode>, b: Seq<TreeNode>, i: nat, D: nat)
    requires i <= a.len() + b.len()
    ensures off(a + b, i, D) == if i <= a.len() { off(a, i, D) } else { off(a, a.len(), D) + off(b, (i - a.len()) as nat, D) }
    decreases i
{ if i > 0 { lemma_off_concat(a, b, (i-1) as nat, D);
    if i <= a.len() { assert((a+b)[i-1] == a[i-1]); } else { let j = (i - a.len()) as nat; assert((a+b)[i-1] == b[j-1]); assert(off(b, j, D) == off(b, (j-1) as nat, D) + nwidth(b[j-1], D)); if j == 1 { assert(off(b, 0, D) == 0); } } } }

pub proof fn lemma_flat_nonempty(t: GT) ensures flat(t).len() >= 1 decreases t
{ match t { GT::Node(n) => {}, GT::Br(l, r) => { lemma_flat_nonempty(*l); lemma_flat_nonempty(*r); } } }

pub proof fn lemma_pow2_half(D: nat, d: nat) requires d < D ensures pow2((D-d) as nat) == 2 * pow2((D-d-1) as nat), pow2((D-d-1) as nat) > 0
{ lemma_pow2_unfold((D-d) as nat); lemma_pow2_pos((D-d-1) as nat); }

pub proof fn lemma_flat_width(t: GT, d: nat, D: nat)
    requires wf(t, d, D) ensures off(flat(t), flat(t).len(), D) == pow2((D-d) as nat), depths_ok(flat(t), D),
       forall|i: int| 0 <= i < flat(t).len() ==> ndepth(#[trigger] flat(t)[i], D) >= d
    decreases t
{
    match t { GT::Node(n) => { reveal_with_fuel(off, 2); assert(flat(t)[0] == n); },
      GT::Br(l, r) => { lemma_flat_width(*l, d+1, D); lemma_flat_width(*r, d+1, D);
        lemma_off_concat(flat(*l), flat(*r), flat(t).len(), D); lemma_flat_nonempty(*r); lemma_pow2_half(D, d); } }
}
// sibling pair at q (absolute offset base)
pub open spec fn pair(s: Seq<TreeNode>, q: int, D: nat, base: nat) -> bool {
    0 <= q && q + 1 < s.len() && is_conc(s[q]) && is_conc(s[q+1]) && ndepth(s[q], D) == ndepth(s[q+1], D)
    && 1 <= ndepth(s[q], D) <= D
    && (base + off(s, q as nat, D)) % (pow2((D - ndepth(s[q], D) + 1) as nat) as nat) == 0
}
pub open spec fn merged(s: Seq<TreeNode>, q: int, D: nat) -> Seq<TreeNode> {
    let d = (ndepth(s[q], D) - 1) as nat;
    s.subrange(0, q).push(cnode(d, node_hash(d, pow2(D), nhash(s[q]), nhash(s[q+1])))) + s.subrange(q+2, s.len() as int)
}
// tree after merging
pub open spec fn mtree(t: GT, d: nat, D: nat, q: int) -> GT decreases t {
    match t { GT::Node(n) => t, GT::Br(l, r) => {
        let nl = flat(*l).len() as int;
        if q + 1 < nl { GT::Br(Box::new(mtree(*l, d+1, D, q)), r) }
        else if q >= nl { GT::Br(l, Box::new(mtree(*r, d+1, D, q - nl))) }
        else { GT::Node(cnode(d, node_hash(d, pow2(D), th(*l, d+1, D), th(*r, d+1, D)))) }
    } }
}
pub proof fn lemma_mod_shift(base: nat, D: nat, d: nat)
    requires d < D, base % pow2((D-d) as nat) == 0
    ensures base % pow2((D-d-1) as nat) == 0, (base + pow2((D-d-1) as nat)) % pow2((D-d-1) as nat) == 0
{
    lemma_pow2_half(D, d);
    let h = pow2((D-d-1) as nat);
    let k = base / (2*h);
    lemma_fundamental_div_mod(base as int, (2*h) as int);
    assert(base == (2*k) * h) by (nonlinear_arith) requires base == 2*h * k;
    lemma_mod_multiples_basic(2*k as int, h as int);
    assert(base + h == (2*k+1)*h) by (nonlinear_arith) requires base == (2*k)*h;
    lemma_mod_multiples_basic(2*k+1 as int, h as int);
}
pub proof fn lemma_pow2_divides(a: nat, b: nat, x: nat) requires a <= b, x % pow2(b) == 0 ensures x % pow2(a) == 0
{
    lemma_pow2_adds(a, (b-a) as nat); lemma_pow2_pos(a); lemma_pow2_pos(b);
    lemma_fundamental_div_mod(x as int, pow2(b) as int);
    let k = x / pow2(b); let c = pow2((b-a) as nat);
    assert(x == (k*c) * pow2(a)) by (nonlinear_arith) requires x == pow2(b) * k, pow2(b) == pow2(a)*c;
    lemma_mod_multiples_basic((k*c) as int, pow2(a) as int);
}
pub proof fn lemma_straddle(mid: nat, o: nat, e: nat, w: nat)
    requires mid % pow2(e+1) == 0, o + pow2(e) == mid, o % pow2(e+1) == 0
    ensures false
{
    lemma_pow2_unfold(e+1); lemma_pow2_pos(e); let h = pow2(e);
    lemma_fundamental_div_mod(mid as int, (2*h) as int); lemma_fundamental_div_mod(o as int, (2*h) as int);
    let a = mid / (2*h); let b = o / (2*h);
    assert(false) by (nonlinear_arith) requires mid == (2*h)*a, o == (2*h)*b, o + h == mid, h > 0;
}

pub open spec fn merge_ok(t: GT, d: nat, D: nat, q: int, keep: Seq<ProtocolId>) -> bool {
    let t2 = mtree(t, d, D, q);
    wf(t2, d, D) && flat(t2) == merged(flat(t), q, D) && th(t2, d, D) == th(t, d, D) && reduce(t2, d, D, keep) == reduce(t, d, D, keep)
}
proof fn lemma_merge_left(l: GT, r: GT, d: nat, D: nat, q: int, keep: Seq<ProtocolId>)
    requires wf(l, d + 1, D), wf(r, d + 1, D), d < D, 0 <= q, q + 1 < flat(l).len(), merge_ok(l, d + 1, D, q, keep)
    ensures merge_ok(GT::Br(Box::new(l), Box::new(r)), d, D, q, keep)
{
    let t = GT::Br(Box::new(l), Box::new(r));
    let m = mtree(l, d + 1, D, q);
    assert(mtree(t, d, D, q) == GT::Br(Box::new(m), Box::new(r)));
    let (s, sl) = (flat(t), flat(l));
    assert(s[q] == sl[q] && s[q + 1] == sl[q + 1]);
    assert(merged(s, q, D) =~= merged(sl, q, D) + flat(r));
}
proof fn lemma_merge_right(l: GT, r: GT, d: nat, D: nat, q: int, keep: Seq<ProtocolId>)
    requires wf(l, d + 1, D), wf(r, d + 1, D), d < D, 0 <= q, q + 1 < flat(r).len(), merge_ok(r, d + 1, D, q, keep)
    ensures merge_ok(GT::Br(Box::new(l), Box::new(r)), d, D, q + flat(l).len(), keep)
{
    let t = GT::Br(Box::new(l), Box::new(r)); let nl = flat(l).len() as int;
    let m = mtree(r, d + 1, D, q);
    assert(mtree(t, d, D, q + nl) == GT::Br(Box::new(l), Box::new(m)));
    let (s, sr) = (flat(t), flat(r));
    assert(s[q + nl] == sr[q] && s[q + nl + 1] == sr[q + 1]);
    assert(merged(s, q + nl, D) =~= flat(l) + merged(sr, q, D));
}
proof fn lemma_merge_mid(l: TreeNode, r: TreeNode, d: nat, D: nat, keep: Seq<ProtocolId>)
    requires d < D < 32, is_conc(l), is_conc(r), ndepth(l, D) == d + 1, ndepth(r, D) == d + 1
    ensures merge_ok(GT::Br(Box::new(GT::Node(l)), Box::new(GT::Node(r))), d, D, 0, keep)
{
    let (a, b) = (GT::Node(l), GT::Node(r));
    let t = GT::Br(Box::new(a), Box::new(b));
    assert(flat(a) == seq![l] && flat(b) == seq![r]);
    let s = flat(t);
    assert(s =~= seq![l, r]);
    let n = cnode(d, node_hash(d, pow2(D), nhash(l), nhash(r)));
    assert(th(a, d + 1, D) == nhash(l) && th(b, d + 1, D) == nhash(r));
    assert(mtree(t, d, D, 0) == GT::Node(n));
    assert(merged(s, 0, D) =~= seq![n]);
    assert(reduce(a, d + 1, D, keep) == a && reduce(b, d + 1, D, keep) == b);
}
pub proof fn lemma_merge(t: GT, d: nat, D: nat, q: int, base: nat, keep: Seq<ProtocolId>)
    requires wf(t, d, D), D < 32, base % pow2((D-d) as nat) == 0, pair(flat(t), q, D, base)
    ensures ({ let t2 = mtree(t, d, D, q);
        wf(t2, d, D) && flat(t2) =~= merged(flat(t), q, D) && th(t2, d, D) == th(t, d, D) // @C04
        && reduce(t2, d, D, keep) == reduce(t, d, D, keep) }), // @C04
        merge_ok(t, d, D, q, keep)
    decreases t
{
    let s = flat(t);
    match t { GT::Node(n) => {}, GT::Br(l, r) => {
        let sl = flat(*l); let sr = flat(*r); let nl = sl.len() as int;
        lemma_flat_nonempty(*l); lemma_flat_nonempty(*r);
        lemma_mod_shift(base, D, d); lemma_flat_width(*l, d+1, D); lemma_flat_width(*r, d+1, D);
        let h = pow2((D-d-1) as nat);
        lemma_off_concat(sl, sr, q as nat, D);
        if q + 1 < nl {
            assert(s[q] == sl[q] && s[q+1] == sl[q+1]);
            lemma_merge(*l, d+1, D, q, base, keep);
            lemma_merge_left(*l, *r, d, D, q, keep);
        } else if q >= nl {
            assert(s[q] == sr[q-nl] && s[q+1] == sr[q-nl+1]);
            assert(off(sl, sl.len(), D) == h);
            lemma_merge(*r, d+1, D, q-nl, base + h, keep);
            lemma_merge_right(*l, *r, d, D, q - nl, keep);
        } else {
            assert(q == nl - 1);
            assert(s[q] == sl[nl-1] && s[q+1] == sr[0]);
            let d1 = ndepth(s[q], D);
            assert(d1 >= d+1);
            assert(off(sl, sl.len(), D) == off(sl, (nl-1) as nat, D) + nwidth(sl[nl-1], D));
            if d1 > d + 1 {
                let mid = base + h;
                lemma_pow2_divides((D - d1 + 1) as nat, (D-d-1) as nat, mid);
                lemma_straddle(mid, base + off(s, q as nat, D), (D-d1) as nat, 0);
            }
            lemma_top(*l, d+1, D, nl-1); lemma_top(*r, d+1, D, 0);
            assert(*l == GT::Node(sl[0]) && *r == GT::Node(sr[0]));
            lemma_merge_mid(sl[0], sr[0], d, D, keep);
        }
    } }
}
// an element of depth d in a tree rooted at depth d is the whole tree
pub proof fn lemma_top(t: GT, d: nat, D: nat, i: int)
    requires wf(t, d, D), 0 <= i < flat(t).len(), ndepth(flat(t)[i], D) == d, is_conc(flat(t)[i])
    ensures t == GT::Node(flat(t)[i])
{
    match t { GT::Node(n) => {}, GT::Br(l, r) => {
        lemma_flat_width(*l, d+1, D); lemma_flat_width(*r, d+1, D);
        if i < flat(*l).len() { assert(flat(t)[i] == flat(*l)[i]); } else { assert(flat(t)[i] == flat(*r)[i - flat(*l).len()]); }
    } }
}
pub open spec fn all_kept(s: Seq<TreeNode>, keep: Seq<ProtocolId>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_conc(#[trigger] s[i]) || kept(s[i], keep) }

pub proof fn lemma_reduced(t: GT, d: nat, D: nat, base: nat, keep: Seq<ProtocolId>)
    requires wf(t, d, D), D < 32, base % pow2((D-d) as nat) == 0, all_kept(flat(t), keep), forall|q: int| !pair(flat(t), q, D, base)
    ensures reduce(t, d, D, keep) == t
    decreases t
{
    match t { GT::Node(n) => { assert(flat(t)[0] == n); }, GT::Br(l, r) => {
        let s = flat(t); let sl = flat(*l); let sr = flat(*r); let nl = sl.len() as int;
        lemma_flat_nonempty(*l); lemma_flat_nonempty(*r);
        lemma_mod_shift(base, D, d); lemma_flat_width(*l, d+1, D); lemma_flat_width(*r, d+1, D);
        assert forall|q: int| !pair(sl, q, D, base) by { if pair(sl, q, D, base) { lemma_off_concat(sl, sr, q as nat, D); assert(s[q]==sl[q] && s[q+1]==sl[q+1]); assert(pair(s, q, D, base)); } }
        let h = pow2((D-d-1) as nat); let b2: nat = base + h;
        assert forall|q: int| !pair(sr, q, D, b2) by { if pair(sr, q, D, b2) { lemma_off_concat(sl, sr, (q + nl) as nat, D); 
            assert(s[q+nl]==sr[q] && s[q+nl+1]==sr[q+1]);
            if q == 0 { assert(off(sr, 0, D) == 0); }
            assert(pair(s, q+nl, D, base)); } }
        assert forall|i: int| 0 <= i < sl.len() implies is_conc(#[trigger] sl[i]) || kept(sl[i], keep) by { assert(s[i] == sl[i]); }
        assert forall|i: int| 0 <= i < sr.len() implies is_conc(#[trigger] sr[i]) || kept(sr[i], keep) by { assert(s[i+nl] == sr[i]); }
        lemma_reduced(*l, d+1, D, base, keep); lemma_reduced(*r, d+1, D, b2, keep);
        if is_cn(*l) && is_cn(*r) {
            assert(s[0] == sl[0] && s[1] == sr[0]);
            assert(off(s, 0, D) == 0);
            assert(*l == GT::Node(sl[0])); assert(*r == GT::Node(sr[0]));
            reveal_with_fuel(wf, 2); assert(ndepth(s[0], D) == d + 1 && ndepth(s[1], D) == d + 1);
            assert((D - ndepth(s[0], D) + 1) as nat == (D - d) as nat);
            assert(s.len() >= 2);
            assert(pair(s, 0, D, base));
        }
    } }
}

pub open spec fn known(s: Seq<TreeNode>, p: ProtocolId) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] is_leaf_of(s[i], p) }
pub open spec fn is_leaf_of(n: TreeNode, p: ProtocolId) -> bool { n matches TreeNode::CommitmentLeaf{protocol_id, ..} && protocol_id == p }
pub open spec fn is_tree(t: GT, s: Seq<TreeNode>, D: nat) -> bool { wf(t, 0, D) && flat(t) == s }
pub open spec fn xsec(s: Seq<TreeNode>, D: nat) -> bool { exists|t: GT| #[trigger] is_tree(t, s, D) }
pub open spec fn the_tree(s: Seq<TreeNode>, D: nat) -> GT { choose|t: GT| #[trigger] is_tree(t, s, D) }
pub open spec fn no_pair_to(s: Seq<TreeNode>, n: int, D: nat) -> bool { forall|q: int| q < n ==> !#[trigger] pair(s, q, D, 0) }

// hide
pub open spec fn ht(t: GT, keep: Seq<ProtocolId>, D: nat) -> GT decreases t {
   match t { GT::Node(n) => GT::Node(hide(n, keep, D)), GT::Br(l, r) => GT::Br(Box::new(ht(*l, keep, D)), Box::new(ht(*r, keep, D))) } }
pub open spec fn hs(s: Seq<TreeNode>, keep: Seq<ProtocolId>, D: nat) -> Seq<TreeNode> { s.map_values(|n: TreeNode| hide(n, keep, D)) }
pub proof fn lemma_ht(t: GT, d: nat, D: nat, keep: Seq<ProtocolId>) requires wf(t, d, D), D < 32
  ensures wf(ht(t, keep, D), d, D), flat(ht(t, keep, D)) =~= hs(flat(t), keep, D), th(ht(t, keep, D), d, D) == th(t, d, D), 
     reduce(ht(t, keep, D), d, D, keep) == reduce(t, d, D, keep) decreases t
{ match t { GT::Node(n) => {}, GT::Br(l, r) => { lemma_ht(*l, d+1, D, keep); lemma_ht(*r, d+1, D, keep); } } }
pub proof fn lemma_reduce(t: GT, d: nat, D: nat, keep: Seq<ProtocolId>) requires wf(t, d, D), D < 32
  ensures wf(reduce(t, d, D, keep), d, D), th(reduce(t, d, D, keep), d, D) == th(t, d, D) decreases t
{ match t { GT::Node(n) => {}, GT::Br(l, r) => { lemma_reduce(*l, d+1, D, keep); lemma_reduce(*r, d+1, D, keep); } } }

pub proof fn lemma_mod_0(x: nat) ensures x > 0 ==> 0nat % x == 0 { if x > 0 { lemma_small_mod(0, x); } }
pub proof fn lemma_off_prefix(a: Seq<TreeNode>, b: Seq<TreeNode>, i: nat, D: nat) requires i <= a.len(), i <= b.len(), forall|k: int| 0 <= k < i ==> a[k] == b[k] ensures off(a, i, D) == off(b, i, D) decreases i
{ if i > 0 { lemma_off_prefix(a, b, (i-1) as nat, D); } }
pub proof fn lemma_off_mono(s: Seq<TreeNode>, i: nat, j: nat, D: nat) requires i <= j <= s.len() ensures off(s, i, D) <= off(s, j, D) decreases j
{ if i < j { lemma_off_mono(s, i, (j-1) as nat, D); } }
pub proof fn lemma_off_step(s: Seq<TreeNode>, i: nat, D: nat) requires i < s.len() ensures off(s, i + 1, D) == off(s, i, D) + nwidth(s[i as int], D), off(s, i+1, D) <= off(s, s.len(), D)
{ lemma_off_mono(s, i+1, s.len(), D); }
pub proof fn lemma_pow2_all() ensures forall|e: nat| e < 32 ==> 1 <= #[trigger] pow2(e) <= 0x8000_0000, pow2(0) == 1
{ assert forall|e: nat| e < 32 implies 1 <= #[trigger] pow2(e) <= 0x8000_0000 by { lemma_p31(e); } lemma2_to64(); }
pub proof fn lemma_pow_all() ensures forall|e: nat| #[trigger] vstd::arithmetic::power::pow(2, e) == pow2(e) 
{ assert forall|e: nat| #[trigger] vstd::arithmetic::power::pow(2, e) == pow2(e) by { lemma_pow2(e); } }
pub proof fn lemma_known_push(s: Seq<TreeNode>, n: TreeNode) ensures forall|p: ProtocolId| known(s.push(n), p) <==> known(s, p) || is_leaf_of(n, p)
{ assert forall|p: ProtocolId| known(s.push(n), p) <==> known(s, p) || is_leaf_of(n, p) by {
    if known(s, p) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] is_leaf_of(s[i], p); assert(s.push(n)[i] == s[i]); }
    if is_leaf_of(n, p) { assert(s.push(n)[s.len() as int] == n); }
    if known(s.push(n), p) { let i = choose|i: int| 0 <= i < s.push(n).len() && #[trigger] is_leaf_of(s.push(n)[i], p); if i < s.len() { assert(s.push(n)[i] == s[i]); } }
 } }
pub proof fn lemma_eq_pid() ensures eq_is_eq::<ProtocolId>() { }
proof fn lemma_pow_le(e: nat) requires e < 32 ensures vstd::arithmetic::power::pow(2, e) <= 0x8000_0000, vstd::arithmetic::power::pow(2, e) == pow2(e) { lemma_pow2(e); lemma_p31(e); }
}
