// commit_verify/src/mpc/tree.rs: slots
verus! {
/// the slot of a protocol: its id read as a little-endian 256-bit integer modulo the factored width (at least 1)
pub open spec fn fwidth(D: nat, cofactor: nat) -> nat { if pow2(D) <= cofactor { 1 } else { (pow2(D) - cofactor) as nat } }
#[verifier::opaque]
pub open spec fn slot(p: ProtocolId, cofactor: u16, D: nat) -> nat { le_val(p.0.a@) % fwidth(D, cofactor as nat) }
pub proof fn lemma_slot(p: ProtocolId, cofactor: u16, D: nat)
    requires D < 32
    ensures slot(p, cofactor, D) < fwidth(D, cofactor as nat), slot(p, cofactor, D) < pow2(D), 1 <= fwidth(D, cofactor as nat) <= pow2(D) <= 0x8000_0000 // @C02,C06
{ reveal(slot); lemma_pow2_pos(D); lemma2_to64(); if D < 31 { lemma_pow2_strictly_increases(D, 31); } }
pub proof fn lemma_u256_of(n: nat) requires n < pow2(64) ensures u256_of(n).n() == n
{
    lemma2_to64_rest(); lemma_pow2_strictly_increases(64, 128); lemma_small_mod(n, pow2(128)); lemma_basic_div(n as int, pow2(128) as int);
    lemma_pow2_adds(64, 64);
    assert(0x1_0000_0000_0000_0000 * 0x1_0000_0000_0000_0000 == 0x1_0000_0000_0000_0000_0000_0000_0000_0000nat) by (compute);
    assert(0 * pow2(128) == 0) by (nonlinear_arith);
}
//% fn commit_verify/src/mpc/tree.rs protocol_id_pos
//% ret r
//% props C02 C06
//% spec
    requires depth.wf()
    ensures r == slot(protocol_id, cofactor, depth.n()),
//% start
    proof {
        reveal(slot); lemma_pow_is(depth.n()); lemma2_to64_rest(); lemma_slot(protocol_id, cofactor, depth.n());
        lemma_u256_of(slot(protocol_id, cofactor, depth.n())); assert(0 * pow2(128) == 0) by (nonlinear_arith);
    }
//% end
pub proof fn lemma_pow_is(e: nat) requires e < 32 ensures pow(2, e) == pow2(e), 1 <= pow2(e) <= 0x8000_0000
{ lemma_pow2(e); lemma_pow2_pos(e); lemma2_to64(); if e < 31 { lemma_pow2_strictly_increases(e, 31); } }
}
