pub type WErr<C> = Error<<C as Connection>::Error>;
//@ include numuniq.vx
// a bare literal `0`/`1` is an i32
impl VxInt for i32 {
    open spec fn val(self) -> int { self as int }
    open spec fn maxv() -> int { i32::MAX as int }
}
impl PrimInt for i32 {
    fn is_zero(&self) -> (r: bool) { *self == 0 }
}
impl BeBytes for i32 {
    open spec fn nbytes() -> nat { 4 }
    uninterp spec fn be(self) -> Seq<u8>;
    open spec fn uval(self) -> nat { self as u32 as nat }
    axiom fn be_axiom(self);
    #[verifier::external_body]
    fn to_be_bytes(self, buf: &mut [u8]) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn from_be_bytes(buf: &[u8]) -> (r: Option<Self>) { unimplemented!() }
}
// ---- tracepoints
//@ each F N = _QTDPsrc QTDPsrc ; _qTBuffer qTBuffer ; _qTP qTP ; _QTFrame QTFrame ; _QTBuffer_upcase QTBuffer ; _QTinit QTinit ; _QTStart QTStart ; _QTStop QTStop ; _qTStatus qTStatus ; _qTfP qTfP ; _qTsP qTsP ; _qTfV qTfV ; _qTsV qTsV
pub mod @F@ { use super::*;
//@ item src/protocol/commands/@F@.rs @N@
}
//@ endeach
pub mod _QTDP { use super::*;
//@ item src/protocol/commands/_QTDP.rs QTDP
//@ item src/protocol/commands/_QTDP.rs CreateTDP
//@ item src/protocol/commands/_QTDP.rs ExtendTDP
}
pub use _QTDP::*;
pub use _QTDPsrc::QTDPsrc; pub use _qTBuffer::qTBuffer;
//@ item @expanded mod protocol / mod commands / mod ext / Tracepoints
pub open spec fn nt(v: int) -> Seq<u8> { hexs(num(v)) }
// m, followed by the description of a tracepoint
pub open spec fn new_app(m: Seq<u8>, t: NewTracepoint<AUsize>) -> Seq<u8> {
    m + ascii("T"@) + nt(t.number.0 as int) + ascii(":"@) + nt(t.addr.val()) + ascii(":"@) + (if t.enabled { ascii("E"@) } else { ascii("D"@) })
        + ascii(":"@) + nt(t.step_count as int) + ascii(":"@) + nt(t.pass_count as int)
}
pub open spec fn src_app(m: Seq<u8>, t: TSrcV) -> Seq<u8> {
    m + ascii("Z"@) + nt(t.number.0 as int) + ascii(":"@) + nt(t.addr.val()) + ascii(":"@)
        + (match t.kind { TracepointSourceType::At => ascii("at"@), TracepointSourceType::Cond => ascii("cond"@), TracepointSourceType::Cmd => ascii("cmd"@) })
        + ascii(":"@) + nt(t.start as int) + ascii(":"@) + nt(t.slen as int) + ascii(":"@) + hexs(t.bytes)
}
pub open spec fn act_app(m: Seq<u8>, tp: Tracepoint, addr: AUsize, a: ActV) -> Seq<u8> {
    let h = m + ascii("A"@) + nt(tp.0 as int) + ascii(":"@) + nt(addr.val()) + ascii(":"@);
    match a {
        ActV::Registers(mask) => h + ascii("R"@) + hexs(mask),
        ActV::Memory(base, off, len) => (match base { Some(b) => h + ascii("M"@) + nt(b as int), None => h + ascii("M"@) + ascii("-1"@) }) + ascii(","@) + nt(off.val()) + ascii(","@) + nt(len as int),
        ActV::Expression(e) => h + ascii("X"@) + nt(e.len() as int) + ascii(","@) + hexs(e),
    }
}
pub open spec fn status_app(m: Seq<u8>, s: ExperimentStatus<'_>) -> Seq<u8> {
    match s {
        ExperimentStatus::Running => m + ascii("T1"@),
        ExperimentStatus::NotRunning => m + ascii("T0"@),
        ExperimentStatus::NotRun => m + ascii("T0"@) + ascii(";tnotrun:0"@),
        ExperimentStatus::Stop(None) => m + ascii("T0"@) + ascii(";tstop:0"@),
        ExperimentStatus::Stop(Some(t)) => m + ascii("T0"@) + ascii(";tstop:"@) + hexs(t@) + ascii(":0"@),
        ExperimentStatus::Full => m + ascii("T0"@) + ascii(";tfull:0"@),
        ExperimentStatus::Disconnected => m + ascii("T0"@) + ascii(";tdisconnected:0"@),
        ExperimentStatus::PassCount(t) => m + ascii("T0"@) + ascii(";tpasscount:"@) + nt(t.0 as int),
        ExperimentStatus::Error(text, t) => m + ascii("T0"@) + ascii(";terror:"@) + hexs(text@) + ascii(":"@) + nt(t.0 as int),
        ExperimentStatus::Unknown => m + ascii("T0"@) + ascii(";tunknown:0"@),
    }
}
pub open spec fn expl_app(m: Seq<u8>, s: ExperimentExplanation<'_>) -> Seq<u8> {
    match s {
        ExperimentExplanation::Frames(n) => m + ascii("tframes:"@) + nt(n as int),
        ExperimentExplanation::Created(n) => m + ascii("tcreated:"@) + nt(n as int),
        ExperimentExplanation::Size(n) => m + ascii("tsize:"@) + nt(n as int),
        ExperimentExplanation::Free(n) => m + ascii("tfree:"@) + nt(n as int),
        ExperimentExplanation::Circular(b) => m + ascii("circular:"@) + nt(if b { 1 } else { 0 }),
        ExperimentExplanation::DisconnectedTracing(b) => m + (if b { ascii("disconn:1"@) } else { ascii("disconn:0"@) }),
        ExperimentExplanation::Other(t) => m + t.spec_bytes(),
    }
}
// what writing one item does
#[verifier::prophetic]
pub open spec fn wrote<C: Connection>(o: &ResponseWriter<'_, C>, n: &ResponseWriter<'_, C>, ok: bool, m: Seq<u8>) -> bool {
    &&& n.wf() && n.same(o) && n.dead() == (o.dead() || !ok)
    &&& ok ==> n.msg@ == m && (plain(o.msg@) ==> plain(n.msg@))
}
pub open spec fn werr<C: Connection>(r: Result<(), InternalError<VxError, C::Error>>) -> bool { r matches Err(e) ==> e is Connection }
//@ subst write :: < T , C > => write::<C>
//@ impl src/stub/core_impl/tracepoints.rs NewTracepoint<U> ==> impl NewTracepoint<AUsize>
//@ fn from_tdp
//@ ret r
//@ subst U :: from_be_bytes => AUsize::from_be_bytes
//@ spec
    ensures
        r is Some <==> be_fits::<AUsize>(ctdp.addr@),
        r is Some ==> new_of(ctdp, (r->0).0) && (r->0).1 == ctdp.more,
//@ end
//@ fn write
//@ ret r
//@ opt generics=<C: Connection>
//@ opt q
//@ opt lits
//@ spec
    requires old(res).wf(),
    ensures wrote(old(res), final(res), r is Ok, new_app(old(res).msg@, *self)), werr::<C>(r),
//@ at start
    broadcast use {group_plain, lemma_num, ausize_unsigned};
//@ end
//@ endimpl
pub open spec fn new_of(c: CreateTDP<'_>, t: NewTracepoint<AUsize>) -> bool {
    t.number == c.number && be_num(c.addr@, t.addr) && t.enabled == c.enable && t.step_count == c.step && t.pass_count == c.pass
}
//@ impl src/stub/core_impl/tracepoints.rs SourceTracepoint<'a, U> ==> impl<'a> SourceTracepoint<'a, AUsize>
//@ fn from_src
//@ ret r
//@ subst U :: from_be_bytes => AUsize::from_be_bytes
//@ spec
    ensures
        r is Some <==> be_fits::<AUsize>(src.addr@),
        r is Some ==> src_of(src, (r->0).vw()),
//@ end
//@ endimpl
pub open spec fn src_of(c: QTDPsrc<'_>, t: TSrcV) -> bool {
    t.number == c.number && be_num(c.addr@, t.addr) && t.kind == c.kind && t.start == c.start && t.slen == c.slen && t.bytes == c.bytes@
}
//@ impl src/stub/core_impl/tracepoints.rs SourceTracepoint<'_, U> ==> impl<'a> SourceTracepoint<'a, AUsize>
//@ fn write
//@ ret r
//@ opt generics=<C: Connection>
//@ opt q
//@ opt lits
//@ subst self . bytes . as_ref ( ) => self.bytes.vx_deref()
//@ spec
    requires old(res).wf(),
    ensures wrote(old(res), final(res), r is Ok, src_app(old(res).msg@, self.vw())), werr::<C>(r),
//@ at start
    broadcast use {group_plain, lemma_num, ausize_unsigned};
//@ end
//@ endimpl
//@ impl src/stub/core_impl/tracepoints.rs TracepointAction<'_, U> ==> impl<'a> TracepointAction<'a, AUsize>
//@ fn write
//@ ret r
//@ opt generics=<C: Connection>
//@ opt q
//@ opt lits
//@ subst addr : U => addr: AUsize
//@ subst write_hex_buf ( mask ) => write_hex_buf(mask.vx_deref())
//@ subst write_hex_buf ( expr ) => write_hex_buf(expr.vx_deref())
//@ spec
    requires old(res).wf(),
    ensures wrote(old(res), final(res), r is Ok, act_app(old(res).msg@, tp, addr, self.vw())), werr::<C>(r),
//@ at start
    broadcast use {group_plain, lemma_num, ausize_unsigned};
//@ end
//@ endimpl
//@ impl src/stub/core_impl/tracepoints.rs ExperimentStatus<'_> ==> impl<'a> ExperimentStatus<'a>
//@ fn write
//@ opt retty=Result<(), WErr<C>>
//@ subst crate :: target :: ext :: tracepoints :: ExperimentStatus => ExperimentStatus
//@ ret r
//@ opt q
//@ opt lits
//@ spec
    requires old(res).wf(),
    ensures wrote(old(res), final(res), r is Ok, status_app(old(res).msg@, *self)),
//@ at start
    broadcast use {group_plain, lemma_num, ausize_unsigned};
//@ end
//@ endimpl
//@ impl src/stub/core_impl/tracepoints.rs ExperimentExplanation<'_> ==> impl<'a> ExperimentExplanation<'a>
//@ fn write
//@ ret r
//@ opt generics=<C: Connection>
//@ opt q
//@ opt lits
//@ subst write_str ( body . as_ref ( ) ) => write_str(body)
//@ spec
    requires old(res).wf(), self.ok(),
    ensures wrote(old(res), final(res), r is Ok, expl_app(old(res).msg@, *self)), werr::<C>(r),
//@ at start
    broadcast use {group_plain, lemma_num, ausize_unsigned};
//@ end
//@ endimpl
