// commit_verify/src/digest.rs
verus! {
pub open spec fn max_width(m: nat) -> nat { if m <= 0xFF { 1 } else if m <= 0xFFFF { 2 } else if m <= 0xFF_FFFF { 3 } else { 4 } }
pub trait DigestExt<const BYTE_LEN: usize = 32>: Sized {
    /// the bytes absorbed so far
    spec fn st(&self) -> Seq<u8>;
    spec fn digest_of(s: Seq<u8>) -> Seq<u8>;
    fn from_tag<Impl0: AsBytes>(tag: Impl0) -> (r: Self) ensures r.st() == Self::digest_of(tag.av()) + Self::digest_of(tag.av()); // @C10,C09
    fn input_raw(&mut self, data: &[u8]) ensures final(self).st() == old(self).st() + data@; // @C10
//% fn commit_verify/src/digest.rs DigestExt::input_with_len
//% props C10
//% spec
        requires MAX <= 0xFFFF_FFFF, data@.len() <= MAX
        ensures final(self).st() == old(self).st() + le(data@.len(), max_width(MAX as nat)) + data@,
//% end
    fn finish(self) -> (r: [u8; BYTE_LEN]) ensures r@ == Self::digest_of(self.st()); // @C10,C09
}
//% gsub impl AsRef<[u8]> => impl AsBytes
impl DigestExt for Sha256 {
    open spec fn st(&self) -> Seq<u8> { self@ }
    open spec fn digest_of(s: Seq<u8>) -> Seq<u8> { sha256(s)@ }
//% fn commit_verify/src/digest.rs <Sha256 as DigestExt>::from_tag
//% props C10 C09
//% ret r
//% end
//% fn commit_verify/src/digest.rs <Sha256 as DigestExt>::input_raw
//% props C10
//% end
//% fn commit_verify/src/digest.rs <Sha256 as DigestExt>::finish
//% ret r
//% props C10 C09
//% end
}
impl DigestExt<20> for Ripemd160 {
    open spec fn st(&self) -> Seq<u8> { self@ }
    open spec fn digest_of(s: Seq<u8>) -> Seq<u8> { ripemd160(s)@ }
//% fn commit_verify/src/digest.rs <Ripemd160 as DigestExt<20>>::from_tag
//% props C10
//% ret r
//% end
//% fn commit_verify/src/digest.rs <Ripemd160 as DigestExt<20>>::input_raw
//% props C10
//% end
//% fn commit_verify/src/digest.rs <Ripemd160 as DigestExt<20>>::finish
//% ret r
//% props C10
//% end
}
//% clear-gsubs
}
