// commit_verify/src/mpc/tree.rs: building a commitment tree
verus! {
pub struct ThreadRng;
#[verifier::external_body]
fn thread_rng() -> ThreadRng { unimplemented!() }
impl ThreadRng { #[verifier::external_body] fn next_u64(&mut self) -> u64 { unimplemented!() } }
//% const commit_verify/src/mpc/tree.rs COFACTOR_ATTEMPTS
//% item commit_verify/src/mpc/atoms.rs MultiSource
//% item commit_verify/src/mpc/tree.rs Error {
//%   derive Debug
//% }
/// no two protocols share a slot
pub open spec fn fits_at(msgs: Map<ProtocolId, Message>, cof: nat, D: nat) -> bool {
    forall|p: ProtocolId, q: ProtocolId| msgs.contains_key(p) && msgs.contains_key(q) && p != q ==> #[trigger] slot(p, cof as u16, D) != #[trigger] slot(q, cof as u16, D)
}
/// largest cofactor tried at a depth
pub open spec fn maxcof(min: nat, D: nat) -> nat { let pw = if D == min { 1 } else { pow2((D - 1) as nat) }; if pw <= 500 { pw } else { 500 } }
/// the pair is tried before (D, cof)
pub open spec fn no_fit_below(msgs: Map<ProtocolId, Message>, min: nat, D: nat) -> bool {
    forall|e: nat, c: nat| min <= e < D && msgs.dom().len() <= pow2(e) && c <= maxcof(min, e) ==> !#[trigger] fits_at(msgs, c, e)
}
pub open spec fn no_cof_below(msgs: Map<ProtocolId, Message>, cof: nat, D: nat) -> bool { forall|c: nat| c < cof ==> !#[trigger] fits_at(msgs, c, D) }
/// (D, cof) is the first fitting pair
pub open spec fn first_fit(msgs: Map<ProtocolId, Message>, min: nat, cof: nat, D: nat) -> bool {
    min <= D <= 31 && msgs.dom().len() <= pow2(D) && cof <= maxcof(min, D) && fits_at(msgs, cof, D) && no_fit_below(msgs, min, D) && no_cof_below(msgs, cof, D)
}
/// the pairs are stored at their slots, and nothing else is
pub open spec fn stores(map: Map<u32, (ProtocolId, Message)>, msgs: Map<ProtocolId, Message>, cof: u16, D: nat) -> bool {
    &&& forall|p: ProtocolId| #[trigger] msgs.contains_key(p) ==> map.contains_key(slot(p, cof, D) as u32) && map[slot(p, cof, D) as u32] == (p, msgs[p])
    &&& forall|k: u32| #[trigger] map.contains_key(k) ==> msgs.contains_key(map[k].0) && msgs[map[k].0] == map[k].1 && slot(map[k].0, cof, D) == k
}
pub open spec fn stores_upto(map: Map<u32, (ProtocolId, Message)>, msgs: Map<ProtocolId, Message>, ks: Seq<ProtocolId>, n: int, cof: u16, D: nat) -> bool {
    &&& forall|i: int| 0 <= i < n ==> map.contains_key(slot(#[trigger] ks[i], cof, D) as u32) && map[slot(ks[i], cof, D) as u32] == (ks[i], msgs[ks[i]])
    &&& forall|k: u32| #[trigger] map.contains_key(k) ==> exists|i: int| 0 <= i < n && #[trigger] ks[i] == map[k].0 && map[k].1 == msgs[ks[i]] && slot(ks[i], cof, D) == k
    &&& forall|i: int, j: int| 0 <= i < j < n ==> slot(#[trigger] ks[i], cof, D) != slot(#[trigger] ks[j], cof, D)
}
/// one more pair: either it clashes with an earlier one, or it is stored
pub proof fn lemma_store_step(map: Map<u32, (ProtocolId, Message)>, msgs: Map<ProtocolId, Message>, ks: Seq<ProtocolId>, n: int, cof: u16, D: nat)
    requires stores_upto(map, msgs, ks, n, cof, D), 0 <= n < ks.len(), D < 32, ks.no_duplicates(), forall|i: int| 0 <= i < ks.len() ==> msgs.contains_key(#[trigger] ks[i])
    ensures ({ let k = slot(ks[n], cof, D) as u32;
        &&& map.contains_key(k) ==> !fits_at(msgs, cof as nat, D)
        &&& !map.contains_key(k) ==> stores_upto(map.insert(k, (ks[n], msgs[ks[n]])), msgs, ks, n + 1, cof, D) }) // @C02
{
    let k = slot(ks[n], cof, D) as u32;
    assert forall|p: ProtocolId| slot(p, cof, D) == #[trigger] (slot(p, cof, D) as u32) by { lemma_slot(p, cof, D); }
    if map.contains_key(k) {
        let i = choose|i: int| 0 <= i < n && #[trigger] ks[i] == map[k].0 && map[k].1 == msgs[ks[i]] && slot(ks[i], cof, D) == k;
        assert(ks[i] != ks[n] && slot(ks[i], cof as nat as u16, D) == slot(ks[n], cof as nat as u16, D));
    } else {
        let m2 = map.insert(k, (ks[n], msgs[ks[n]]));
        assert forall|i: int| 0 <= i < n implies slot(#[trigger] ks[i], cof, D) != slot(ks[n], cof, D) by { assert(map.contains_key(slot(ks[i], cof, D) as u32)); }
        assert forall|j: u32| #[trigger] m2.contains_key(j) implies exists|i: int| 0 <= i < n + 1 && #[trigger] ks[i] == m2[j].0 && m2[j].1 == msgs[ks[i]] && slot(ks[i], cof, D) == j by {
            if j == k { assert(ks[n] == m2[j].0); } else { assert(map.contains_key(j)); }
        }
    }
}
/// all pairs stored without a clash
pub proof fn lemma_stored(map: Map<u32, (ProtocolId, Message)>, msgs: Map<ProtocolId, Message>, ks: Seq<ProtocolId>, cof: u16, D: nat)
    requires stores_upto(map, msgs, ks, ks.len() as int, cof, D), D < 32, ks == sorted_keys(msgs.dom()), msgs.dom().finite()
    ensures fits_at(msgs, cof as nat, D), stores(map, msgs, cof, D), map.dom().len() == msgs.dom().len(), forall|k: u32| #[trigger] map.contains_key(k) ==> k < pow2(D) // @C02
{
    axiom_sorted_keys(msgs.dom());
    assert forall|p: ProtocolId| slot(p, cof, D) == #[trigger] (slot(p, cof, D) as u32) && slot(p, cof, D) < pow2(D) by { lemma_slot(p, cof, D); }
    assert forall|p: ProtocolId, q: ProtocolId| msgs.contains_key(p) && msgs.contains_key(q) && p != q implies #[trigger] slot(p, cof as nat as u16, D) != #[trigger] slot(q, cof as nat as u16, D) by {
        assert(msgs.dom().contains(p) && msgs.dom().contains(q));
        let i = choose|i: int| 0 <= i < ks.len() && ks[i] == p; let j = choose|i: int| 0 <= i < ks.len() && ks[i] == q;
        if i < j { assert(slot(ks[i], cof, D) != slot(ks[j], cof, D)); } else { assert(slot(ks[j], cof, D) != slot(ks[i], cof, D)); }
    }
    assert forall|p: ProtocolId| #[trigger] msgs.contains_key(p) implies map.contains_key(slot(p, cof, D) as u32) && map[slot(p, cof, D) as u32] == (p, msgs[p]) by {
        assert(msgs.dom().contains(p)); let i = choose|i: int| 0 <= i < ks.len() && ks[i] == p; assert(ks[i] == p);
    }
    let f = |p: ProtocolId| slot(p, cof, D) as u32;
    let im = ks.map_values(f);
    assert(im.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < j < im.len() implies im[i] != im[j] by { assert(slot(ks[i], cof, D) != slot(ks[j], cof, D)); } }
    im.unique_seq_to_set();
    assert(im.to_set() =~= map.dom()) by {
        assert forall|k: u32| im.to_set().contains(k) <==> map.dom().contains(k) by {
            if im.contains(k) { let i = choose|i: int| 0 <= i < im.len() && im[i] == k; assert(map.contains_key(slot(ks[i], cof, D) as u32)); }
            if map.contains_key(k) { let i = choose|i: int| 0 <= i < ks.len() as int && #[trigger] ks[i] == map[k].0 && map[k].1 == msgs[ks[i]] && slot(ks[i], cof, D) == k; assert(im[i] == k); }
        }
    }
}
impl MultiSource {
    pub open spec fn inv(&self) -> bool { self.min_depth.wf() && self.messages.wfm() }
    pub open spec fn msgs(&self) -> Map<ProtocolId, Message> { self.messages.c@ }
}
//% econst commit_verify/src/mpc/atoms.rs MPC_MINIMAL_DEPTH ensures MPC_MINIMAL_DEPTH == (u5 { v: 3 })
impl Default for Method {
//% fn @expanded <Method as Default>::default
//% ret r
//% props C02
//% spec
    ensures r == Method::Sha256t,
//% end
}
impl<K, V, const MAX: usize> Default for Confined<BTreeMap<K, V>, 0, MAX> {
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r.c@ == Map::<K, V>::empty() { unimplemented!() }
}
impl Default for MultiSource {
//% gsub default!() => Default::default()
//% fn commit_verify/src/mpc/atoms.rs <MultiSource as Default>::default
//% ret r
//% props C02
//% spec
    ensures r.method == Method::Sha256t, r.min_depth.n() == 3, r.msgs() == Map::<ProtocolId, Message>::empty(), r.static_entropy is None, r.inv(), // @C02
//% end
//% clear-gsubs
}
impl MultiSource {
//% gsub default!() => <MultiSource as Default>::default()
//% fn commit_verify/src/mpc/atoms.rs MultiSource::with_static_entropy
//% ret r
//% props C02
//% spec
    ensures r.method == Method::Sha256t, r.min_depth.n() == 3, r.msgs() == Map::<ProtocolId, Message>::empty(), r.static_entropy == Some(static_entropy), r.inv(), // @C02
//% end
//% clear-gsubs
}
impl MerkleTree {
//% fn commit_verify/src/mpc/tree.rs <MerkleTree as TryCommitVerify<MultiSource,UntaggedProtocol>>::try_commit
//% ret r
//% props C02
//% spec
    requires source.inv()
    ensures r matches Ok(t) ==> first_fit(source.msgs(), source.min_depth.n(), t.cofactor as nat, t.D()), // @C02
        r matches Ok(t) ==> stores(t.map.c@, source.msgs(), t.cofactor, t.D()) && t.ok(), // @C02,C05
        r matches Ok(t) ==> t.method == source.method && t.messages == source.messages && (source.static_entropy matches Some(e) ==> t.entropy == e), // @C02
        r matches Err(e) ==> !(exists|c: nat, D: nat| #[trigger] first_fit(source.msgs(), source.min_depth.n(), c, D)) || e is Empty, // @C02
        r matches Err(Error::Empty) <==> source.min_depth.n() == 0 && source.msgs().dom().len() == 0, // @C02
        r matches Err(Error::TooManyMessages(n)) ==> n == source.msgs().dom().len() && n > 0x8000_0000, // @C02
        r matches Err(Error::CantFitInMaxSlots(n)) ==> n == source.msgs().dom().len(), // @C02
//% start
    proof { lemma_pow_is(31); lemma2_to64(); }
    let ghost ks = source.messages.c.keys_seq(); let ghost min = source.min_depth.n();
    broadcast use axiom_sorted_keys;
//% loop 1 loop inv
        invariant source.inv(), ks == source.messages.c.keys_seq(), min == source.min_depth.n(), msg_count == source.msgs().dom().len(), !(min == 0 && msg_count == 0),
            source.static_entropy matches Some(e) ==> entropy == e,
            depth.wf(), min <= depth.n(), prev_width == (if depth.n() == min { 1 } else { pow2((depth.n() - 1) as nat) }), no_fit_below(source.msgs(), min, depth.n()),
        decreases 32 - depth.n()
//% loop 1 loop start
        let ghost d0 = depth.n();
        proof { lemma_pow_is(depth.n()); lemma_pow_is(min); }
//% loop 2 for inv
            invariant source.inv(), ks == source.messages.c.keys_seq(), min == source.min_depth.n(), msg_count == source.msgs().dom().len(), !(min == 0 && msg_count == 0),
                source.static_entropy matches Some(e) ==> entropy == e, depth.n() == d0, msg_count <= pow2(d0),
                depth.wf(), min <= depth.n(), no_fit_below(source.msgs(), min, depth.n()),
                it2.seq().len() == maxcof(min, d0) + 1, forall|i: int| 0 <= i < it2.seq().len() ==> it2.seq()[i] == i,
                no_cof_below(source.msgs(), it2.index@ as nat, d0),
//% loop 3 pipe inv
            invariant_except_break __all1, stores_upto(map@, source.msgs(), ks, it3.index@, cofactor, d0),
            invariant source.inv(), ks == source.messages.c.keys_seq(), depth.wf(), depth.n() == d0,
                it3.seq() =~= ks.map_values(|k: ProtocolId| (&k, &source.msgs()[k])),
            ensures __all1 ==> stores_upto(map@, source.msgs(), ks, ks.len() as int, cofactor, d0), !__all1 ==> !fits_at(source.msgs(), cofactor as nat, d0),
//% loop 3 pipe start
            proof { axiom_sorted_keys(source.msgs().dom()); lemma_store_step(map@, source.msgs(), ks, it3.index@, cofactor, d0); }
//% loop 3 pipe after
            proof { if __all1 { lemma_stored(map@, source.msgs(), ks, cofactor, d0); } }
//% end
}
}
