// ---- negotiated features: two independent flags
//@ impl core ProtocolFeatures
//@ fn no_ack_mode
//@ ret r
//@ spec
    ensures r == self.quiet(),
//@ end
//@ fn multiprocess
//@ ret r
//@ spec
    ensures r == self.mp(),
//@ end
//@ fn set_no_ack_mode
//@ spec
    ensures final(self).quiet() == val, final(self).mp() == old(self).mp(),
//@ at end
    proof { lemma_flags(old(self).0); }
//@ end
//@ fn set_multiprocess
//@ spec
    ensures final(self).mp() == val, final(self).quiet() == old(self).quiet(),
//@ at end
    proof { lemma_flags(old(self).0); }
//@ end
//@ endimpl
//@ proofonly
pub proof fn lemma_flags(b: u8)
    ensures
        ({
            let (m, q) = (ProtocolFeatures::MULTIPROCESS.0, ProtocolFeatures::NO_ACK_MODE.0);
            &&& (b | m) & m == m && ((b | m) & q == q <==> b & q == q) && (b & !m) & m != m && ((b & !m) & q == q <==> b & q == q)
            &&& (b | q) & q == q && ((b | q) & m == m <==> b & m == m) && (b & !q) & q != q && ((b & !q) & m == m <==> b & m == m)
        }),
{
    let m = ProtocolFeatures::MULTIPROCESS.0;
    let q = ProtocolFeatures::NO_ACK_MODE.0;
    assert(ProtocolFeatures::MULTIPROCESS.0 & ProtocolFeatures::NO_ACK_MODE.0 == 0 && ProtocolFeatures::MULTIPROCESS.0 != 0 && ProtocolFeatures::NO_ACK_MODE.0 != 0) by(compute);
    assert((b | m) & m == m && ((b | m) & q == q <==> b & q == q) && (b & !m) & m != m && ((b & !m) & q == q <==> b & q == q)) by(bit_vector) requires m & q == 0, m != 0, q != 0;
    assert((b | q) & q == q && ((b | q) & m == m <==> b & m == m) && (b & !q) & q != q && ((b & !q) & m == m <==> b & m == m)) by(bit_vector) requires m & q == 0, m != 0, q != 0;
}
//@ endproofonly
