// feature "paranoid_unsafe": the safe twin of decode_hex_buf, and every unit that is cfg'd on it
//@ include prelude.vx
//@ include num.vx
//@ include hexspec.vx
//@ item src/protocol/common/hex.rs DecodeHexBufError
//@ fn src/protocol/common/hex.rs ascii2byte
//@ ret r
//@ spec
    ensures r == hexval(c),
//@ end

//@ fn src/protocol/common/hex.rs decode_hex_buf
//@ ret r
//@ spec
    ensures
        r is Ok <==> all_hex(old(base_buf)@),
        r is Ok ==> (r->Ok_0)@ == hexbytes(old(base_buf)@),
        // frame: the caller sees the decoded prefix, followed by untouched bytes
        r is Ok ==> final(base_buf)@ == final(r->Ok_0)@ + old(base_buf)@.skip((old(base_buf)@.len() as int + 1) / 2),
//@ at start
    proof { assert(hexbytes(Seq::<u8>::empty()) =~= Seq::<u8>::empty()); }
//@ at loop0.before
    let ghost s = old(base_buf)@;
    let ghost o = odd_adust as int;
//@ loop 0
    invariant
        s == old(base_buf)@,
        o == odd_adust as int, o == s.len() % 2,
        decoded_len == (s.len() - o) / 2,
        buf@.len() == s.len() - o, buf@.len() <= usize::MAX,
        o == 1 ==> hexval(s[0]) is Some,
        forall|j: int| 0 <= j < i ==> buf@[j] == #[trigger] hexpair(s[o + 2 * j], s[o + 2 * j + 1]),
        forall|j: int| i <= j < buf@.len() ==> #[trigger] buf@[j] == s[o + j],
        forall|j: int| 0 <= j < o + 2 * i ==> hexval(#[trigger] s[j]) is Some,
//@ at before:buf[i] = b
    proof {
        lemma_shl4(hexval(buf@[2 * i as int])->0, hexval(buf@[2 * i + 1])->0);
    }
//@ at end
    proof {
        assert(base_buf@.len() == s.len());
        assert(o == 1 ==> base_buf@[0] == hexval(s[0])->0);
        assert(forall|j: int| 0 <= j < decoded_len ==> #[trigger] base_buf@[j + o] == buf@[j]);
        assert forall|j: int| 0 <= j < decoded_len + o implies #[trigger] hexbytes(s)[j] == base_buf@[j] by {
            let q = j - o;
            if q >= 0 {
                assert(base_buf@[q + o] == buf@[q]);
                assert(buf@[q] == hexpair(s[o + 2 * q], s[o + 2 * q + 1]));
                if o == 1 { assert(hexbytes(s)[j] == hexpair(s[2 * j - 1], s[2 * j])); } else { assert(hexbytes(s)[j] == hexpair(s[2 * j], s[2 * j + 1])); }
            }
        }
        assert(hexbytes(s) =~= base_buf@.take(decoded_len + o));
        assert(base_buf@.skip(decoded_len + o) =~= s.skip((s.len() as int + 1) / 2));
    }
//@ end

