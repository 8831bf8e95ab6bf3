//@ item src/protocol/common/hex.rs DecodeHexError
//@ item src/protocol/common/hex.rs DecodeHexBufError

//@ fn src/protocol/common/hex.rs ascii2byte
//@ ret r
//@ spec
    ensures r == hexval(c),
//@ end

//@ fn src/protocol/common/hex.rs is_hex
//@ ret r
//@ spec
    ensures r == (hexval(c) is Some),
//@ end

//@ fn src/protocol/common/hex.rs decode_hex
//@ ret r
//@ spec
    requires I::maxv() >= 127,
    ensures
        buf@.len() == 0 ==> r is Err && r->Err_0 is Empty,
        r is Ok <==> buf@.len() > 0 && all_hex(buf@) && hexnum(buf@) <= I::maxv(),
        r is Ok ==> r->Ok_0.val() == hexnum(buf@),
        r is Err && r->Err_0 is NotAscii ==> !all_hex(buf@),
        !(r is Err && r->Err_0 is InvalidOutput),
//@ loop 0 it
    invariant
        it.seq().len() == buf@.len(),
        forall|j: int| 0 <= j < buf@.len() ==> *(#[trigger] it.seq()[j]) == buf@[j],
        I::maxv() >= 127,
        radix.val() == 16,
        all_hex(buf@.take(it.index@ as int)),
        result.val() == hexnum(buf@.take(it.index@ as int)),
        hexnum(buf@.take(it.index@ as int)) <= I::maxv(),
//@ at loop0.start
    proof {
        let k = it.index@ as int;
        assert(buf@.take(k + 1).drop_last() =~= buf@.take(k));
        assert(buf@.take(k + 1).last() == buf@[k]);
        lemma_hexnum_mono(buf@, k + 1);
        assert(forall|j: int| 0 <= j < k ==> #[trigger] buf@.take(k)[j] == buf@[j]);
        assert(hexnum(buf@.take(k + 1)) == hexnum(buf@.take(k)) * 16 + hexval(buf@[k])->0 as nat);
    }
//@ at end
    proof { assert(buf@.take(buf@.len() as int) =~= buf@); }
//@ end

//@ fn src/protocol/common/hex.rs decode_hex_buf
//@ ret r
//@ spec
    ensures
        r is Ok <==> all_hex(old(base_buf)@),
        r is Ok ==> (r->Ok_0)@ == hexbytes(old(base_buf)@),
        // frame: the caller sees the decoded prefix, followed by untouched bytes
        r is Ok ==> final(base_buf)@ == final(r->Ok_0)@ + old(base_buf)@.skip((old(base_buf)@.len() as int + 1) / 2),
//@ at start
    proof { assert(hexbytes(Seq::<u8>::empty()) =~= Seq::<u8>::empty()); }
//@ at loop0.before
    let ghost s = old(base_buf)@;
    let ghost o = odd_adust as int;
//@ loop 0
    invariant
        s == old(base_buf)@,
        o == odd_adust as int, o == s.len() % 2,
        decoded_len == (s.len() - o) / 2,
        buf@.len() == s.len() - o, buf@.len() <= usize::MAX,
        o == 1 ==> hexval(s[0]) is Some,
        forall|j: int| 0 <= j < i ==> buf@[j] == #[trigger] hexpair(s[o + 2 * j], s[o + 2 * j + 1]),
        forall|j: int| i <= j < buf@.len() ==> #[trigger] buf@[j] == s[o + j],
        forall|j: int| 0 <= j < o + 2 * i ==> hexval(#[trigger] s[j]) is Some,
//@ at after:let lo = ascii2byte
    proof { lemma_shl4(hi, lo); }
//@ at end
    proof {
        assert(base_buf@.len() == s.len());
        assert(o == 1 ==> base_buf@[0] == hexval(s[0])->0);
        assert(forall|j: int| 0 <= j < decoded_len ==> #[trigger] base_buf@[j + o] == buf@[j]);
        assert forall|j: int| 0 <= j < decoded_len + o implies #[trigger] hexbytes(s)[j] == base_buf@[j] by {
            let q = j - o;
            if q >= 0 {
                assert(base_buf@[q + o] == buf@[q]);
                assert(buf@[q] == hexpair(s[o + 2 * q], s[o + 2 * q + 1]));
                if o == 1 { assert(hexbytes(s)[j] == hexpair(s[2 * j - 1], s[2 * j])); } else { assert(hexbytes(s)[j] == hexpair(s[2 * j], s[2 * j + 1])); }
            }
        }
        assert(hexbytes(s) =~= base_buf@.take(decoded_len + o));
        assert(base_buf@.skip(decoded_len + o) =~= s.skip((s.len() as int + 1) / 2));
    }
//@ end

//@ fn src/protocol/common/hex.rs decode_bin_buf
//@ ret r
//@ spec
    ensures
        r is Some <==> binval(old(buf)@) is Some,
        r is Some ==> (r->0)@ == binval(old(buf)@)->0,
//@ loop 0
    invariant
        len == old(buf)@.len(), buf@.len() == len,
        j <= i <= len,
        forall|k: int| i <= k < len ==> #[trigger] buf@[k] == old(buf)@[k],
        binval(old(buf)@) == (match binval(old(buf)@.skip(i as int)) { Some(t) => Some(buf@.take(j as int) + t), None => None }),
//@ at loop0.before
    proof {
        assert(buf@.skip(0) =~= buf@);
        match binval(buf@) { Some(t) => { assert(buf@.take(0) + t =~= t); }, None => {} }
    }
//@ at loop0.after
    proof { lemma_binval_unfold(old(buf)@, i as int); assert(buf@.take(len as int) + Seq::<u8>::empty() =~= buf@); }
//@ at loop0.start
    let ghost b0 = buf@;
    proof { lemma_binval_unfold(old(buf)@, i as int); assert(buf@.take(j as int) + Seq::<u8>::empty() =~= buf@.take(j as int)); }
//@ at loop0.end
    proof {
        assert(buf@.take(j + 1) =~= b0.take(j as int) + seq![buf@[j as int]]);
        match binval(old(buf)@.skip(i as int)) { Some(t) => {
            assert(b0.take(j as int) + (seq![buf@[j as int]] + t) =~= buf@.take(j + 1) + t);
        }, None => {} }
    }
//@ end

//@ item src/protocol/common/hex.rs HexString
//@ impl src/protocol/common/hex.rs HexString<'_> ==> impl<'a> HexString<'a>
//@ fn decode
//@ ret r
//@ spec
    requires I::maxv() >= 127,
    ensures
        r is Ok <==> self.0@.len() > 0 && all_hex(self.0@) && hexnum(self.0@) <= I::maxv(),
        r is Ok ==> r->Ok_0.val() == hexnum(self.0@),
//@ end
//@ endimpl
