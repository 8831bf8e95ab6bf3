// ---- qXfer reads: the reply carries what the target supplied for exactly the window asked for
pub trait ParseAnnex<'a>: Sized {}
//@ item src/protocol/common/qxfer.rs QXferReadBase
//@ each F T L A N E = _qXfer_auxv_read AuxvAnnex <'a> AuxvAnnex qXferAuxvRead Auxv ; _qXfer_libraries_svr4_read LibrariesSvr4Annex <'a> LibrariesSvr4Annex qXferLibrariesSvr4Read LibrariesSvr4 ; _qXfer_memory_map MemoryMapAnnex <'a> MemoryMapAnnex qXferMemoryMapRead MemoryMap ; _qXfer_exec_file ExecFileAnnex <'a> ExecFileAnnex qXferExecFileRead ExecFile ; _qXfer_features_read FeaturesAnnex <'a> FeaturesAnnex<'a> qXferFeaturesRead TargetXml
pub mod @F@ { use super::*;
//@ item src/protocol/commands/@F@.rs @T@
impl<'a> ParseAnnex<'a> for @A@ {}
//@ item src/protocol/commands/@F@.rs @N@
}
//@ item @expanded mod protocol / mod commands / mod ext / @E@
//@ endeach
pub open spec fn xfer_text(d: Seq<u8>) -> Seq<u8> { if d.len() == 0 { ascii("l"@) } else { ascii("m"@) + escs(d) } }
// the reply to a read which the target answered with `x`, having left `d` in the buffer
pub open spec fn xfer_reply<C: Connection>(d: Seq<u8>, x: Result<usize, TargetError<VxError>>, reply: Option<Seq<u8>>, r: HR<C>) -> bool {
    match x {
        Ok(n) => match r {
            Ok(h) => h is Handled && n <= d.len() && reply == Some(xfer_text(d.take(n as int))),
            Err(e) => io_err::<C>(r) || n > d.len() && e == InternalError::<VxError, C::Error>::PacketBufferOverflow,
        },
        Err(e) => r == HR::<C>::Err(herrv::<C>(e)),
    }
}
pub open spec fn herrv<C: Connection>(e: TargetError<VxError>) -> InternalError<VxError, C::Error> { Result::<usize, TargetError<VxError>>::Err(e).herr()->Err_0 }
// without leading and trailing white space
pub uninterp spec fn trimmed(s: &str) -> &str;
pub assume_specification[ str::trim ](s: &str) -> (r: &str) ensures r == trimmed(s);
// the part of an object which starts at `offset`, as long as the client asked for and as fits
pub open spec fn window(d: Seq<u8>, offset: int, length: int, room: int) -> Seq<u8> {
    let s = if offset < d.len() { offset } else { d.len() as int };
    let rest = d.skip(s);
    let n = if length < rest.len() { length } else { rest.len() as int };
    rest.take(if n < room { n } else { room })
}
pub open spec fn xml_spec<C: Connection>(s: St, f: St, annex: Seq<u8>, offset: u64, length: usize, room: int, reply: Option<Seq<u8>>, r: HR<C>) -> bool {
    if s.has.support_target_description_xml_override {
        exists|d: Seq<u8>, x| d.len() == room && f == #[trigger] s.did(Ev::TargetDescriptionXmlOverride_target_description_xml(annex, offset, length, d, x)) && xfer_reply::<C>(d, x, reply, r)
    } else {
        f == s && if AArch::xml() is Some && annex == ascii("target.xml"@) {
            match r { Ok(h) => h is Handled && reply == Some(xfer_text(window(trimmed(AArch::xml()->0).spec_bytes(), offset as int, length as int, room))), Err(_) => io_err::<C>(r) }
        } else { r == HR::<C>::Err(InternalError::PacketUnexpected) }
    }
}
//@ each F H E V S EV ARGS = auxv handle_auxv Auxv qXferAuxvRead support_auxv Auxv_get_auxv(c.offset,c.length,d,x) - ; exec_file handle_exec_file ExecFile qXferExecFileRead support_exec_file ExecFile_get_exec_file(c.annex.pid,c.offset,c.length,d,x) - ; libraries handle_libraries_svr4 LibrariesSvr4 qXferLibrariesSvr4Read support_libraries_svr4 LibrariesSvr4_get_libraries_svr4(c.offset,c.length,d,x) - ; memory_map handle_memory_map MemoryMap qXferMemoryMapRead support_memory_map MemoryMap_memory_map_xml(c.offset,c.length,d,x) -
//@ impl src/stub/core_impl/@F@.rs GdbStubImpl<T, C> ==> impl<C: Connection> GdbStubImpl<T, C>
//@ fn @H@
//@ ret r
//@ opt q
//@ opt lits
//@ spec
    requires rok(old(res)), old(res).msg@.len() == 0,
    ensures *final(self) == *old(self), res_frame(old(res), final(res), r),
        match command {
            @E@::@V@(c) => if old(target)@.has.@S@ {
                exists|d: Seq<u8>, x| d.len() == c.buf@.len() && final(target)@ == #[trigger] old(target)@.did(Ev::@EV@) && xfer_reply::<C>(d, x, rply::<C>(final(res).msg@, r), r)
            } else { silent::<C>(old(target)@, final(target)@, rply::<C>(final(res).msg@, r), r) },
        },
//@ at start
    broadcast use group_plain;
    proof { assert(res.msg@ =~= Seq::<u8>::empty()); assert forall|t: Seq<u8>| (#[trigger] (res.msg@ + t)) == t by { assert(res.msg@ + t =~= t); } }
//@ end
//@ endimpl
//@ endeach
//@ impl src/stub/core_impl/target_xml.rs GdbStubImpl<T, C> ==> impl<C: Connection> GdbStubImpl<T, C>
//@ fn handle_target_xml
//@ ret r
//@ opt q
//@ opt lits
//@ spec
    requires rok(old(res)), old(res).msg@.len() == 0,
    ensures *final(self) == *old(self), res_frame(old(res), final(res), r),
        match command {
            TargetXml::qXferFeaturesRead(c) => if old(target)@.has.use_target_description_xml {
                xml_spec::<C>(old(target)@, final(target)@, c.annex.name@, c.offset, c.length, c.buf@.len() as int, rply::<C>(final(res).msg@, r), r)
            } else { silent::<C>(old(target)@, final(target)@, rply::<C>(final(res).msg@, r), r) },
        },
//@ at start
    broadcast use group_plain;
    proof { assert(res.msg@ =~= Seq::<u8>::empty()); assert forall|t: Seq<u8>| (#[trigger] (res.msg@ + t)) == t by { assert(res.msg@ + t =~= t); } }
    let ghost d0 = trimmed(AArch::xml()->0).spec_bytes();
    let ghost s0 = target@;
//@ at before:if ret == 0
    proof {
        if !s0.has.support_target_description_xml_override {
            assert(cmd.buf@.take(ret as int) =~= window(d0, cmd.offset as int, cmd.length as int, cmd.buf@.len() as int));
        }
    }
//@ end
//@ endimpl
