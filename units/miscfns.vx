// ---- the small handlers: no-ack mode, qOffsets, reverse execution, qThreadExtraInfo
//@ each T = QStartNoAckMode ; qOffsets ; bc ; bs ; qThreadExtraInfo
pub mod _@T@ { use super::*;
//@ item src/protocol/commands/_@T@.rs @T@
}
//@ endeach
//@ each E = NoAckMode ; SectionOffsets ; ReverseCont ; ReverseStep ; ThreadExtraInfo
//@ item @expanded mod protocol / mod commands / mod ext / @E@
//@ endeach
//@ impl src/stub/core_impl/no_ack_mode.rs GdbStubImpl<T, C> ==> impl<C: Connection> GdbStubImpl<T, C>
//@ fn handle_no_ack_mode
//@ ret r
//@ opt q
//@ spec
    requires rok(old(_res)), old(_res).msg@.len() == 0,
    ensures res_frame(old(_res), final(_res), r), final(_res).msg@ == old(_res).msg@, final(target)@ == old(target)@,
        if old(target)@.has.use_no_ack_mode {
            r == HR::<C>::Ok(HandlerStatus::NeedsOk) && final(self).features.quiet()
                && final(self).features.mp() == old(self).features.mp()
                && *final(self) == (GdbStubImpl { features: final(self).features, ..*old(self) })
        } else { r == HR::<C>::Ok(HandlerStatus::Handled) && *final(self) == *old(self) },
//@ end
//@ endimpl
pub open spec fn bss_or(b: Option<AUsize>, d: AUsize) -> int { match b { Some(x) => x.val(), None => d.val() } }
pub open spec fn offs_text(o: Offsets<AUsize>, m: Seq<u8>) -> bool {
    match o {
        Offsets::Sections { text, data, bss } => exists|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>|
            #[trigger] is_num_text(a, text.val()) && #[trigger] is_num_text(b, data.val()) && #[trigger] is_num_text(c, bss_or(bss, data))
                && m == ascii("Text="@) + hexs(a) + ascii(";Data="@) + hexs(b) + ascii(";Bss="@) + hexs(c),
        Offsets::Segments { text_seg, data_seg: None } => exists|a: Seq<u8>| #[trigger] is_num_text(a, text_seg.val()) && m == ascii("TextSeg="@) + hexs(a),
        Offsets::Segments { text_seg, data_seg: Some(d) } => exists|a: Seq<u8>, b: Seq<u8>|
            #[trigger] is_num_text(a, text_seg.val()) && #[trigger] is_num_text(b, d.val()) && m == ascii("TextSeg="@) + hexs(a) + ascii(";DataSeg="@) + hexs(b),
    }
}
//@ impl src/stub/core_impl/section_offsets.rs GdbStubImpl<T, C> ==> impl<C: Connection> GdbStubImpl<T, C>
//@ fn handle_section_offsets
//@ ret r
//@ opt q
//@ opt lits
//@ opt drop_use
//@ spec
    requires rok(old(res)), old(res).msg@.len() == 0,
    ensures *final(self) == *old(self), res_frame(old(res), final(res), r),
        if old(target)@.has.support_section_offsets {
            exists|x: Result<Offsets<AUsize>, VxError>| final(target)@ == #[trigger] old(target)@.did(Ev::SectionOffsets_get_section_offsets(x)) && match x {
                Ok(o) => match r { Ok(h) => h is Handled && offs_text(o, final(res).msg@), Err(_) => io_err::<C>(r) },
                Err(e) => r == HR::<C>::Err(InternalError::TargetError(e)),
            }
        } else { silent::<C>(old(target)@, final(target)@, rply::<C>(final(res).msg@, r), r) },
//@ at start
    broadcast use {group_plain, ausize_unsigned};
    proof { assert(res.msg@ =~= Seq::<u8>::empty()); assert forall|t: Seq<u8>| (#[trigger] (res.msg@ + t)) == t by { assert(res.msg@ + t =~= t); } }
//@ at before:let bss
    let ghost b0 = bss;
//@ at after:let bss
    proof { assert(bss.val() == bss_or(b0, data)); assert(exists|a: Seq<u8>, b: Seq<u8>| #[trigger] is_num_text(a, text.val()) && #[trigger] is_num_text(b, data.val()) && res.msg@ == ascii("Text="@) + hexs(a) + ascii(";Data="@) + hexs(b)); }
//@ end
//@ endimpl
//@ each O D K F ARGS = ReverseContOps ReverseCont support_reverse_cont reverse_cont - ; ReverseStepOps ReverseStep support_reverse_step reverse_step -
//@ subst dyn @D@Trait < ( ) , Arch = A , Error = E > => @D@Dyn<()>
//@ subst dyn @D@Trait < Tid , Arch = A , Error = E > => @D@Dyn<Tid>
//@ subst enum @O@ < 'a , A : Arch , E > => enum @O@<'a>
//@ item @expanded mod stub / mod core_impl / mod reverse_exec / @O@
//@ impl @expanded mod stub / mod core_impl / mod reverse_exec / @O@<'a, A, E> ==> impl<'a> @O@<'a>
//@ fn from_target
//@ ret r
//@ opt nowhere
//@ opt generics=
//@ opt retty=Option<@O@<'_>>
//@ spec
    ensures
        r is Some <==> old(target)@.has.support_resume && old(target)@.has.@K@,
        match r {
            None => final(target)@ == old(target)@,
            Some(@O@::SingleThread(o)) => !old(target)@.has.multi && o@ == old(target)@ && final(target)@ == final(o)@,
            Some(@O@::MultiThread(o)) => old(target)@.has.multi && o@ == old(target)@ && final(target)@ == final(o)@,
        },
//@ end
//@ endimpl
//@ endeach
pub open spec fn step_tid(multi: bool, t: Tid) -> Option<int> { if multi { t.vx_tid() } else { None } }
pub open spec fn stops<C: Connection>(x: Result<(), VxError>, r: HR<C>) -> bool {
    match x { Ok(_) => r == HR::<C>::Ok(HandlerStatus::DeferredStopReason), Err(e) => r == HR::<C>::Err(InternalError::TargetError(e)) }
}
//@ impl src/stub/core_impl/reverse_exec.rs GdbStubImpl<T, C> ==> impl<C: Connection> GdbStubImpl<T, C>
//@ fn handle_reverse_cont
//@ ret r
//@ opt q
//@ subst ReverseContOps :: < '_ , T :: Arch , VxError > => ReverseContOps
//@ spec
    requires rok(old(_res)), old(_res).msg@.len() == 0,
    ensures *final(self) == *old(self), res_frame(old(_res), final(_res), r), final(_res).msg@ == old(_res).msg@,
        if old(target)@.has.support_resume && old(target)@.has.support_reverse_cont {
            exists|x: Result<(), VxError>| final(target)@ == #[trigger] old(target)@.did(Ev::ReverseCont_reverse_cont(x)) && stops::<C>(x, r)
        } else { silent::<C>(old(target)@, final(target)@, rply::<C>(final(_res).msg@, r), r) },
//@ at start
    proof { assert(_res.msg@ =~= Seq::<u8>::empty()); }
//@ end
//@ fn handle_reverse_step
//@ ret r
//@ opt q
//@ subst ReverseStepOps :: < '_ , T :: Arch , VxError > => ReverseStepOps
//@ spec
    requires rok(old(_res)), old(_res).msg@.len() == 0,
    ensures *final(self) == *old(self), res_frame(old(_res), final(_res), r), final(_res).msg@ == old(_res).msg@,
        if old(target)@.has.support_resume && old(target)@.has.support_reverse_step {
            match old(self).current_resume_tid {
                SpecificIdKind::All => final(target)@ == old(target)@ && r == HR::<C>::Err(InternalError::PacketUnexpected),
                SpecificIdKind::WithId(t) => exists|x: Result<(), VxError>|
                    final(target)@ == #[trigger] old(target)@.did(Ev::ReverseStep_reverse_step(step_tid(old(target)@.has.multi, t), x)) && stops::<C>(x, r),
            }
        } else { silent::<C>(old(target)@, final(target)@, rply::<C>(final(_res).msg@, r), r) },
//@ at start
    proof { assert(_res.msg@ =~= Seq::<u8>::empty()); }
//@ end
//@ endimpl
//@ impl src/stub/core_impl/thread_extra_info.rs GdbStubImpl<T, C> ==> impl<C: Connection> GdbStubImpl<T, C>
//@ fn handle_thread_extra_info
//@ ret r
//@ opt q
//@ spec
    requires rok(old(res)), old(res).msg@.len() == 0,
    ensures *final(self) == *old(self), res_frame(old(res), final(res), r),
        match command { ThreadExtraInfo::qThreadExtraInfo(c) =>
            if old(target)@.has.multi && old(target)@.has.support_thread_extra_info {
                exists|d: Seq<u8>, x: Result<usize, VxError>| d.len() == c.buf@.len() && final(target)@ == #[trigger] old(target)@.did(Ev::ThreadExtraInfo_thread_extra_info(c.id.tid, d, x)) && match x {
                    Ok(n) => match r {
                        Ok(h) => h is Handled && n <= d.len() && final(res).msg@ == hexs(d.take(n as int)),
                        Err(e) => io_err::<C>(r) || n > d.len() && e == InternalError::<VxError, C::Error>::PacketBufferOverflow,
                    },
                    Err(e) => r == HR::<C>::Err(InternalError::TargetError(e)),
                }
            } else { silent::<C>(old(target)@, final(target)@, rply::<C>(final(res).msg@, r), r) },
        },
//@ at start
    broadcast use group_plain;
    proof { assert(res.msg@ =~= Seq::<u8>::empty()); assert forall|t: Seq<u8>| (#[trigger] (res.msg@ + t)) == t by { assert(res.msg@ + t =~= t); } }
//@ end
//@ endimpl
// ---- monitor commands: each piece of output is a packet of its own, in order
pub mod _qRcmd { use super::*;
//@ item src/protocol/commands/_qRcmd.rs qRcmd
}
//@ item @expanded mod protocol / mod commands / mod ext / MonitorCmd
pub open spec fn o_text(m: Seq<u8>) -> Seq<u8> { ascii("O"@) + hexs(m) }
pub open spec fn console(w: Seq<u8>, ms: Seq<&'static [u8]>, rle: bool) -> bool
    decreases ms.len(),
{
    if ms.len() == 0 { w.len() == 0 } else {
        exists|k: int| 0 <= k <= w.len() && #[trigger] is_packet(w.skip(k), o_text(ms.last()@), rle) && console(w.take(k), ms.drop_last(), rle)
    }
}
pub proof fn lemma_console(w: Seq<u8>, p: Seq<u8>, ms: Seq<&'static [u8]>, m: &'static [u8], rle: bool)
    requires console(w, ms, rle), is_packet(p, o_text(m@), rle),
    ensures console(w + p, ms.push(m), rle),
{
    let k = w.len() as int;
    assert((w + p).skip(k) =~= p);
    assert((w + p).take(k) =~= w);
    assert(ms.push(m).drop_last() =~= ms);
    assert(ms.push(m).last() == m && ms.push(m).len() > 0);
    assert(is_packet((w + p).skip(k), o_text(ms.push(m).last()@), rle));
}
//@ impl src/stub/core_impl/monitor_cmd.rs GdbStubImpl<T, C> ==> impl<C: Connection> GdbStubImpl<T, C>
//@ fn handle_monitor_cmd
//@ ret r
//@ attr #[verifier::loop_isolation(false)]
//@ opt q
//@ opt lits
//@ opt callbacks=handle_monitor_cmd
//@ spec
    requires rok(old(res)), old(res).msg@.len() == 0, !old(res).started,
    ensures *final(self) == *old(self),
        match command { MonitorCmd::qRcmd(c) =>
            if old(target)@.has.support_monitor_cmd {
                exists|all: Seq<&'static [u8]>, x: Result<(), VxError>| final(target)@ == #[trigger] old(target)@.did(Ev::MonitorCmd_handle_monitor_cmd(c.hex_cmd@, all, x)) && match x {
                    Err(e) => r == HR::<C>::Err(InternalError::TargetError(e)),
                    Ok(_) => match r {
                        Ok(h) => h is NeedsOk && rok(final(res)) && final(res).msg@.len() == 0 && !final(res).started
                            && old(res).start().is_prefix_of(final(res).start()) && console(final(res).start().skip(old(res).start().len() as int), all, old(target)@.has.use_rle),
                        Err(_) => io_err::<C>(r),
                    },
                }
            } else { silent::<C>(old(target)@, final(target)@, rply::<C>(final(res).msg@, r), r) && res_frame(old(res), final(res), r) },
        },
//@ at start
    proof { assert(res.msg@ =~= Seq::<u8>::empty()); }
//@ at loop0.after
    proof { assert(c0.all().take(vx_cb.pos() as int) =~= c0.all()); }
//@ at loop0.end
    proof {
        if err is Ok {
            reveal(ResponseWriter::wf); reveal(ResponseWriter::raw_wf);
            let w = res.start();
            assert(c0.all().take(n0 + 1) =~= c0.all().take(n0).push(c0.all()[n0]));
            assert(w0.skip(s0.len() as int) + w.skip(w0.len() as int) =~= w.skip(s0.len() as int)) by { assert(w.take(w0.len() as int) =~= w0); }
            lemma_console(w0.skip(s0.len() as int), w.skip(w0.len() as int), c0.all().take(n0), c0.all()[n0], use_rle);
        }
    }
//@ at loop0.before
    let ghost c0 = vx_cb;
    let ghost s0 = res.start();
    proof { assert(s0.skip(s0.len() as int).len() == 0); }
//@ loop 0
    invariant
        vx_cb.all() == c0.all(), vx_cb.result() == c0.result(), vx_cb.pos() <= vx_cb.all().len(),
        err matches Err(e) ==> e is Connection,
        err is Ok ==> rok(res) && res.msg@.len() == 0 && !res.started && s0.is_prefix_of(res.start()) && console(res.start().skip(s0.len() as int), c0.all().take(vx_cb.pos() as int), use_rle),
        *final(res.inner) == *final(old(res).inner),
    decreases vx_cb.all().len() - vx_cb.pos(),
//@ at loop0.start
    broadcast use group_plain;
    let ghost w0 = res.start();
    let ghost ok0 = err is Ok;
    let ghost n0 = vx_cb.pos() as int;
    proof {
        reveal(plain);
        assert(Seq::<u8>::empty() + ascii("O"@) =~= ascii("O"@));
        assert(clean(o_text(c0.all()[n0]@)) && nostar(o_text(c0.all()[n0]@))) by { assert(plain(o_text(c0.all()[n0]@))); }
    }
//@ end
//@ endimpl
