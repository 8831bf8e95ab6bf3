// ---- which handler a command reaches, and the commands with none
//@ include termfns.vx
//@ include hcmd.vx
pub open spec fn no_side<C: Connection>(side: Seq<u8>, h: HR<C>) -> bool { h is Ok || h->Err_0 is NonFatalError ==> side.len() == 0 }
// k and vKill
pub open spec fn killed<C: Connection>(s: St, f: St, pid: Option<Pid>, reply: Option<Seq<u8>>, r: HR<C>) -> bool {
    if !s.has.support_extended_mode { f == s && reply == Some(Seq::<u8>::empty()) && r == HR::<C>::Ok(HandlerStatus::Disconnect(DisconnectReason::Kill)) }
    else {
        exists|x: Result<ShouldTerminate, TargetError<VxError>>| f == #[trigger] s.did(Ev::ExtendedMode_kill(pid, x)) && match x {
            Err(e) => r == HR::<C>::Err(Result::<ShouldTerminate, TargetError<VxError>>::Err(e).herr()->Err_0),
            Ok(ShouldTerminate::Yes) => match r { Ok(h) => h == HandlerStatus::Disconnect(DisconnectReason::Kill) && reply == Some(ascii("OK"@)), Err(_) => io_err::<C>(r) },
            Ok(ShouldTerminate::No) => r == HR::<C>::Ok(HandlerStatus::NeedsOk) && reply == Some(Seq::<u8>::empty()),
        }
    }
}
// an unknown command: an empty reply, except that a resume packet sent to a target which cannot resume is
// explained on the console and answered with a stop
pub open spec fn resume_packet(u: Seq<u8>) -> bool { u.len() > 0 && (u[0] == 0x63 || u[0] == 0x43 || u[0] == 0x73 || u[0] == 0x53) }
pub open spec fn stub_text() -> Seq<u8> { ascii("O"@) + hexs(ascii("target has not implemented `support_resume()`\n"@)) }
pub open spec fn did_unknown<C: Connection>(s: St, u: Seq<u8>, side: Seq<u8>, reply: Option<Seq<u8>>, r: HR<C>) -> bool {
    if !s.has.support_resume && s.has.use_resume_stub && resume_packet(u) {
        io_err::<C>(r) || r == HR::<C>::Ok(HandlerStatus::Handled) && reply == Some(ascii("S05"@)) && is_packet(side, stub_text(), s.has.use_rle)
    } else { silent::<C>(s, s, reply, r) && side.len() == 0 }
}
//@ include corehand.vx
//@ impl core GdbStubImpl<T, C> ==> impl<C: Connection> GdbStubImpl<T, C>
//@ fn handle_command
//@ opt arm=Command::Unknown
//@ opt tail
//@ opt sig=fn unknown_command(&mut self, res: &mut ResponseWriter<'_, C>, target: &mut T, cmd: &[u8]) -> Result<HandlerStatus, InternalError<T::Error, C::Error>>
//@ attr #[verifier::spinoff_prover]
//@ ret r
//@ opt q
//@ opt map
//@ opt lits
//@ spec
    requires rok(old(res)), old(res).msg@.len() == 0,
    ensures *final(self) == *old(self), final(target)@ == old(target)@, cmd_frame(old(res), final(res), r),
        did_unknown::<C>(old(target)@, cmd@, side_of(old(res), final(res)), rply::<C>(final(res).msg@, r), r),
//@ at start
    broadcast use group_plain;
    let ghost s0 = res.start();
    proof {
        lemma_unstarted(res);
        assert(res.msg@ =~= Seq::<u8>::empty());
        assert forall|t: Seq<u8>| (#[trigger] (Seq::<u8>::empty() + t)) == t by { assert(Seq::<u8>::empty() + t =~= t); }
        assert(s0.skip(s0.len() as int).len() == 0);
    }
//@ at before:res.write_str("O")
    proof {
        reveal(plain);
        assert(clean(stub_text()) && nostar(stub_text())) by { assert(plain(stub_text())); }
    }
//@ at before:res.write_str("S05")
    proof {
        reveal(ResponseWriter::wf); reveal(ResponseWriter::raw_wf);
        assert(rok(res));
        assert(is_packet(res.start().skip(s0.len() as int), stub_text(), target@.has.use_rle));
    }
//@ end
//@ fn handle_command
//@ opt tail
//@ opt call0=Command::Unknown => self.unknown_command(res, target, cmd)
//@ attr #[verifier::spinoff_prover]
//@ ret r
//@ opt q
//@ spec
    requires rok(old(res)), old(res).msg@.len() == 0,
    ensures handled(*old(self), *final(self), old(target)@, final(target)@, cmd, side_of(old(res), final(res)), final(res).msg@, r), cmd_frame(old(res), final(res), r),
        final(target)@.has == old(target)@.has,
//@ at start
    proof { lemma_unstarted(res); }
//@ end
//@ endimpl
