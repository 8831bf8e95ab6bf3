// ---- stub types
//@ flatten
//@ subst crate :: protocol :: PacketParseError => PacketParseError
//@ item src/protocol/packet.rs PacketParseError
//@ item src/stub/error.rs ConnectionErrorKind
//@ item src/stub/error.rs InternalError
//@ file core = src/stub/core_impl.rs
//@ item core DisconnectReason
//@ item core State
//@ item core HandlerStatus
pub trait VxFrom<S>: Sized {
    spec fn from_spec(s: S) -> Self;
    fn vx_conv(s: S) -> (r: Self) ensures r == Self::from_spec(s);
}
pub fn vx_from<S, D: VxFrom<S>>(s: S) -> (r: D) ensures r == D::from_spec(s) { D::vx_conv(s) }
impl<A, B> VxFrom<InternalError<A, B>> for InternalError<A, B> {
    open spec fn from_spec(s: InternalError<A, B>) -> Self { s }
    fn vx_conv(s: InternalError<A, B>) -> Self { s }
}
impl<B> VxFrom<Error<B>> for Error<B> {
    open spec fn from_spec(s: Error<B>) -> Self { s }
    fn vx_conv(s: Error<B>) -> Self { s }
}
//@ subst crate :: protocol :: ResponseWriterError => Error
//@ impl src/stub/error.rs From<ResponseWriterError<C>> for InternalError<T, C> ==> impl<T, C> VxFrom<Error<C>> for InternalError<T, C>
    open spec fn from_spec(e: Error<C>) -> Self { InternalError::Connection(e.0, ConnectionErrorKind::Write) }
//@ fn from
//@ ret r
//@ opt rename=vx_conv
//@ opt novis
//@ subst ResponseWriterError => Error
//@ end
//@ endimpl
// what is reported for a failed target call: 121 unless the target says otherwise
pub trait TargetResultExt<V, T, C>: Sized {
    spec fn herr(self) -> Result<V, InternalError<T, C>>;
    fn handle_error(self) -> (r: Result<V, InternalError<T, C>>) ensures r == self.herr();
}
//@ impl core mod target_result_ext / TargetResultExt<V, T, C> for Result<V, TargetError<T>> ==> impl<V, T, C> TargetResultExt<V, T, C> for Result<V, TargetError<T>>
    open spec fn herr(self) -> Result<V, InternalError<T, C>> {
        match self {
            Ok(v) => Ok(v),
            Err(TargetError::Fatal(e)) => Err(InternalError::TargetError(e)),
            Err(TargetError::NonFatal) => Err(InternalError::NonFatalError(121)),
            Err(TargetError::Errno(c)) => Err(InternalError::NonFatalError(c)),
            Err(TargetError::Io(e)) => Err(InternalError::NonFatalError(match e.os() { Some(v) => v as u8, None => 121 })),
        }
    }
//@ fn handle_error
//@ ret r
//@ opt novis
//@ end
//@ endimpl
//@ subst Error < => InternalError <
//@ subst Error :: => InternalError ::
//@ bitflags core ProtocolFeatures
impl ProtocolFeatures {
    pub open spec fn mp(&self) -> bool { self.has(ProtocolFeatures::MULTIPROCESS) }
    pub open spec fn quiet(&self) -> bool { self.has(ProtocolFeatures::NO_ACK_MODE) }
}
//@ subst PhantomData => core :: marker :: PhantomData
//@ item core GdbStubImpl
pub type HR<C> = Result<HandlerStatus, InternalError<VxError, <C as Connection>::Error>>;
pub open spec fn io_err<C: Connection>(r: HR<C>) -> bool { r matches Err(InternalError::Connection(_, _)) }
// the reply written so far can be sent
pub open spec fn rok<C: Connection>(r: &ResponseWriter<'_, C>) -> bool { r.wf() && !r.dead() && plain(r.msg@) }
#[verifier::prophetic]
pub open spec fn said<C: Connection>(o: &ResponseWriter<'_, C>, n: &ResponseWriter<'_, C>, s: Seq<u8>) -> bool {
    rok(n) && n.same(o) && n.msg@ == o.msg@ + s
}
// after a command was handled
#[verifier::prophetic]
pub open spec fn res_frame<C: Connection>(o: &ResponseWriter<'_, C>, n: &ResponseWriter<'_, C>, r: HR<C>) -> bool {
    &&& n.same(o)
    &&& r is Ok ==> rok(n)
    // an error reply is not preceded by half of another one
    &&& r matches Err(InternalError::NonFatalError(_)) ==> rok(n) && n.msg@ == o.msg@
}
// text which needs no escaping and can be run-length encoded
#[verifier::opaque]
pub open spec fn plain(s: Seq<u8>) -> bool { clean(s) && nostar(s) }
pub broadcast proof fn lemma_plain_app(s: Seq<u8>, t: Seq<u8>)
    requires plain(s), plain(t),
    ensures #[trigger] plain(s + t),
{
    reveal(plain);
    assert forall|i: int| 0 <= i < (s + t).len() implies #[trigger] (s + t)[i] != 0x23 && (s + t)[i] != 0x24 && (s + t)[i] != 0x2a by {
        if i < s.len() { assert((s + t)[i] == s[i]); } else { assert((s + t)[i] == t[i - s.len()]); }
    }
}
pub broadcast proof fn lemma_plain_hexs(s: Seq<u8>)
    ensures #[trigger] plain(hexs(s)),
    decreases s.len(),
{
    reveal(plain);
    if s.len() > 0 { lemma_plain_hexs(s.drop_last()); assert(plain(hex2(s.last()))); lemma_plain_app(hexs(s.drop_last()), hex2(s.last())); }
}
pub broadcast proof fn lemma_plain_escs(s: Seq<u8>)
    ensures #[trigger] plain(escs(s)),
    decreases s.len(),
{
    reveal(plain);
    if s.len() > 0 {
        lemma_plain_escs(s.drop_last());
        let b = s.last();
        assert(plain(esc1(b))) by {
            assert(b == 0x23 ==> b ^ 0x20 == 0x03) by(bit_vector);
            assert(b == 0x24 ==> b ^ 0x20 == 0x04) by(bit_vector);
            assert(b == 0x7d ==> b ^ 0x20 == 0x5d) by(bit_vector);
            assert(b == 0x2a ==> b ^ 0x20 == 0x0a) by(bit_vector);
        }
        lemma_plain_app(escs(s.drop_last()), esc1(b));
    }
}
pub broadcast proof fn lemma_plain_dec(w: Seq<u8>, n: int)
    requires #[trigger] is_dec_text(w, n),
    ensures plain(w),
{
    reveal(plain);
}
pub broadcast proof fn lemma_plain_id(t: Seq<u8>, k: SpecificIdKind)
    requires #[trigger] is_id_text(t, k),
    ensures plain(t),
{
    reveal(plain); reveal(is_id_text); reveal(is_tid_text);
    broadcast use lemma_plain_hexs;
}
pub broadcast proof fn lemma_plain_tid(t: Seq<u8>, k: SpecificThreadId)
    requires #[trigger] is_tid_text(t, k),
    ensures plain(t),
{
    reveal(plain); reveal(is_id_text); reveal(is_tid_text);
    broadcast use {lemma_plain_id, lemma_plain_app};
}
pub broadcast proof fn lemma_plain_nostar(s: Seq<u8>)
    requires #[trigger] plain(s),
    ensures nostar(s), clean(s),
{
    reveal(plain);
}
pub broadcast proof fn lemma_plain_empty()
    ensures #[trigger] plain(Seq::<u8>::empty()),
{
    reveal(plain);
}
pub broadcast group group_plain { lemma_plain_nostar, lemma_plain_empty, lemma_plain_app, lemma_plain_hexs, lemma_plain_escs, lemma_plain_dec, lemma_plain_id, lemma_plain_tid }
// nothing was said: then nothing was sent either
pub proof fn lemma_unstarted<C: Connection>(r: &ResponseWriter<'_, C>)
    requires rok(r), r.msg@.len() == 0,
    ensures !r.started,
{
    reveal(ResponseWriter::wf); reveal(ResponseWriter::raw_wf);
    if r.started && r.rle_enabled { lemma_rl_nonempty(r.sent()); assert(rl(r.sent()).d.len() + r.rle_repeat == 0); }
}
