pub type WErr<C> = Error<<C as Connection>::Error>;
// ---- qRegisterInfo: the description of one register, for LLDB
//@ include numuniq.vx
// the two lists of a register
pub struct VxRegs<'a> { pub container_regs: Option<&'a [usize]>, pub invalidate_regs: Option<&'a [usize]> }
pub open spec fn enc_text(e: Encoding) -> Seq<u8> {
    match e { Encoding::Uint => ascii("uint"@), Encoding::Sint => ascii("sint"@), Encoding::IEEE754 => ascii("ieee754"@), Encoding::Vector => ascii("vector"@) }
}
pub open spec fn fmt_text(e: Format) -> Seq<u8> {
    match e {
        Format::Binary => ascii("binary"@), Format::Decimal => ascii("decimal"@), Format::Hex => ascii("hex"@), Format::Float => ascii("float"@),
        Format::VectorSInt8 => ascii("vector-sint8"@), Format::VectorUInt8 => ascii("vector-uint8"@),
        Format::VectorSInt16 => ascii("vector-sint16"@), Format::VectorUInt16 => ascii("vector-uint16"@),
        Format::VectorSInt32 => ascii("vector-sint32"@), Format::VectorUInt32 => ascii("vector-uint32"@),
        Format::VectorFloat32 => ascii("vector-float32"@), Format::VectorUInt128 => ascii("vector-uint128"@),
    }
}
pub open spec fn gen_text(g: Generic) -> Seq<u8> {
    match g {
        Generic::Pc => ascii("pc"@), Generic::Sp => ascii("sp"@), Generic::Fp => ascii("fp"@), Generic::Ra => ascii("ra"@), Generic::Flags => ascii("flags"@),
        Generic::Arg1 => ascii("arg1"@), Generic::Arg2 => ascii("arg2"@), Generic::Arg3 => ascii("arg3"@), Generic::Arg4 => ascii("arg4"@),
        Generic::Arg5 => ascii("arg5"@), Generic::Arg6 => ascii("arg6"@), Generic::Arg7 => ascii("arg7"@), Generic::Arg8 => ascii("arg8"@),
    }
}
// m, followed by a list of register numbers
pub open spec fn regs_app(m: Seq<u8>, l: Seq<usize>) -> Seq<u8>
    decreases l.len(),
{
    if l.len() == 0 { m } else if l.len() == 1 { m + hexs(num(l[0] as int)) } else { regs_app(m, l.drop_last()) + ascii(","@) + hexs(num(l.last() as int)) }
}
pub open spec fn opt_str(m: Seq<u8>, tag: Seq<u8>, x: Option<&str>) -> Seq<u8> { match x { Some(s) => m + tag + s.spec_bytes(), None => m } }
pub open spec fn opt_dec(m: Seq<u8>, tag: Seq<u8>, x: Option<usize>) -> Seq<u8> { match x { Some(s) => m + tag + dec(s as int), None => m } }
pub open spec fn opt_gen(m: Seq<u8>, x: Option<Generic>) -> Seq<u8> { match x { Some(g) => m + ascii(";generic:"@) + gen_text(g), None => m } }
pub open spec fn opt_regs(m: Seq<u8>, tag: Seq<u8>, x: Option<&[usize]>) -> Seq<u8> {
    match x { Some(l) => if l@.len() > 0 { regs_app(m + tag, l@) } else { m }, None => m }
}
// m, followed by the description of reg
pub open spec fn lldb_head(m: Seq<u8>, reg: Register<'_>) -> Seq<u8> {
    opt_str(m + ascii("name:"@) + reg.name.spec_bytes(), ascii(";alt-name:"@), reg.alt_name)
        + ascii(";bitsize:"@) + dec(reg.bitsize as int)
        + ascii(";offset:"@) + dec(reg.offset as int)
        + ascii(";encoding:"@) + enc_text(reg.encoding)
        + ascii(";format:"@) + fmt_text(reg.format)
        + ascii(";set:"@) + reg.set.spec_bytes()
}
pub open spec fn lldb_mid(m: Seq<u8>, reg: Register<'_>) -> Seq<u8> {
    opt_gen(opt_dec(opt_dec(lldb_head(m, reg), ascii(";gcc:"@), reg.gcc), ascii(";dwarf:"@), reg.dwarf), reg.generic)
}
pub open spec fn lldb_app(m: Seq<u8>, reg: Register<'_>) -> Seq<u8> {
    opt_regs(opt_regs(lldb_mid(m, reg), ascii(";container-regs:"@), reg.container_regs), ascii(";invalidate-regs:"@), reg.invalidate_regs) + ascii(";"@)
}
pub open spec fn lldb_item(m: Seq<u8>, r: Option<Register<'_>>) -> Seq<u8> { match r { Some(reg) => lldb_app(m, reg), None => m + ascii("E45"@) } }
pub open spec fn lldb_spec<C: Connection>(s: St, f: St, command: LldbRegisterInfo, reply: Option<Seq<u8>>, r: HR<C>) -> bool {
    match command { LldbRegisterInfo::qRegisterInfo(cmd) =>
        if !s.has.use_lldb_register_info { silent::<C>(s, f, reply, r) }
        else if s.has.support_lldb_register_info_override {
            exists|all: Seq<Option<Register<'static>>>, x: Result<(), VxError>| f == #[trigger] s.did(Ev::LldbRegisterInfoOverride_lldb_register_info(cmd.reg_id, all, x)) && match x {
                Ok(_) => all.len() == 1 && match r { Ok(h) => h is Handled && reply == Some(lldb_item(Seq::empty(), all[0])), Err(_) => io_err::<C>(r) },
                Err(e) => r == HR::<C>::Err(InternalError::TargetError(e)),
            }
        } else {
            f == s && match AArch::lldb(cmd.reg_id) {
                None => silent::<C>(s, f, reply, r),
                Some(x) => match r {
                    Ok(h) => h is Handled && reply == Some(lldb_item(Seq::empty(), match x { RegisterInfo::Register(reg) => Some(reg), RegisterInfo::Done => None })),
                    Err(_) => io_err::<C>(r),
                },
            }
        },
    }
}
//@ impl src/stub/core_impl/lldb_register_info.rs GdbStubImpl<T, C> ==> impl<C: Connection> GdbStubImpl<T, C>
//@ fn handle_lldb_register_info
//@ opt seg=res.write_str("name:") => if let Some(gcc)
//@ opt sig=fn lldb_head(res: &mut ResponseWriter<'_, C>, reg: &Register<'_>) -> Result<(), WErr<C>>
//@ ret r
//@ opt lits
//@ attr #[verifier::loop_isolation(false)]
//@ spec
    requires rok(old(res)), reg.ok(),
    ensures
        final(res).same(old(res)), final(res).wf(), r is Ok ==> rok(final(res)) && final(res).msg@ == lldb_head(old(res).msg@, *reg),
//@ at start
    broadcast use {group_plain, lemma_num, lemma_dec};
//@ end
//@ fn handle_lldb_register_info
//@ opt seg=if let Some(gcc) => if let Some(generic)
//@ opt sig=fn lldb_mid(res: &mut ResponseWriter<'_, C>, reg: &Register<'_>) -> Result<(), WErr<C>>
//@ ret r
//@ opt lits
//@ attr #[verifier::loop_isolation(false)]
//@ spec
    requires rok(old(res)), reg.ok(),
    ensures
        final(res).same(old(res)), final(res).wf(), r is Ok ==> rok(final(res)) && final(res).msg@ == opt_dec(opt_dec(old(res).msg@, ascii(";gcc:"@), reg.gcc), ascii(";dwarf:"@), reg.dwarf),
//@ at start
    broadcast use {group_plain, lemma_num, lemma_dec};
//@ end
//@ fn handle_lldb_register_info
//@ opt seg=if let Some([first, rest @ ..]) = reg.container_regs => if let Some([first, rest @ ..]) = reg.invalidate_regs
//@ opt sig=fn lldb_cregs(res: &mut ResponseWriter<'_, C>, reg: VxRegs<'_>) -> Result<(), WErr<C>>
//@ ret r
//@ opt lits
//@ attr #[verifier::loop_isolation(false)]
//@ spec
    requires rok(old(res)),
    ensures
        final(res).same(old(res)), final(res).wf(), r is Ok ==> rok(final(res)) && final(res).msg@ == opt_regs(old(res).msg@, ascii(";container-regs:"@), reg.container_regs),
//@ at start
    broadcast use {group_plain, lemma_num, lemma_dec};
//@ at loop0.before
    let ghost m0 = old(res).msg@ + ascii(";container-regs:"@);
    let ghost l0 = (reg.container_regs->0)@;
    proof {
        assert(l0.take(1) =~= seq![l0[0]]); assert(rest@ =~= l0.skip(1));
        assert(res.msg@ == regs_app(m0, l0.take(1)));
    }
//@ at loop0.end
    proof {
        let k = it.index@ as int + 1;
        assert(l0.take(k + 1).drop_last() =~= l0.take(k)); assert(l0.take(k + 1).last() == l0[k] && l0[k] == rest@[k - 1]);
    }
//@ at loop0.after
    proof { assert(l0.take(l0.len() as int) =~= l0); }
//@ loop 0 it
    invariant
        rok(res), res.same(old(res)),
        it.seq().len() == rest@.len(), forall|j: int| 0 <= j < rest@.len() ==> *(#[trigger] it.seq()[j]) == rest@[j],
        res.msg@ == regs_app(m0, l0.take(it.index@ as int + 1)),
//@ end
//@ fn handle_lldb_register_info
//@ opt seg=if let Some([first, rest @ ..]) = reg.invalidate_regs => res.write_str(";")
//@ opt sig=fn lldb_iregs(res: &mut ResponseWriter<'_, C>, reg: VxRegs<'_>) -> Result<(), WErr<C>>
//@ ret r
//@ opt lits
//@ attr #[verifier::loop_isolation(false)]
//@ spec
    requires rok(old(res)),
    ensures
        final(res).same(old(res)), final(res).wf(), r is Ok ==> rok(final(res)) && final(res).msg@ == opt_regs(old(res).msg@, ascii(";invalidate-regs:"@), reg.invalidate_regs),
//@ at start
    broadcast use {group_plain, lemma_num, lemma_dec};
//@ at loop0.before
    let ghost m0 = old(res).msg@ + ascii(";invalidate-regs:"@);
    let ghost l0 = (reg.invalidate_regs->0)@;
    proof {
        assert(l0.take(1) =~= seq![l0[0]]); assert(rest@ =~= l0.skip(1));
        assert(res.msg@ == regs_app(m0, l0.take(1)));
    }
//@ at loop0.end
    proof {
        let k = it.index@ as int + 1;
        assert(l0.take(k + 1).drop_last() =~= l0.take(k)); assert(l0.take(k + 1).last() == l0[k] && l0[k] == rest@[k - 1]);
    }
//@ at loop0.after
    proof { assert(l0.take(l0.len() as int) =~= l0); }
//@ loop 0 it
    invariant
        rok(res), res.same(old(res)),
        it.seq().len() == rest@.len(), forall|j: int| 0 <= j < rest@.len() ==> *(#[trigger] it.seq()[j]) == rest@[j],
        res.msg@ == regs_app(m0, l0.take(it.index@ as int + 1)),
//@ end
//@ fn handle_lldb_register_info
//@ opt cut0=res.write_str("name:") => if let Some(gcc) => Self::lldb_head(res, &reg)
//@ opt cut1=if let Some(gcc) => if let Some(generic) => Self::lldb_mid(res, &reg)
//@ opt cut2=if let Some([first, rest @ ..]) = reg.container_regs => if let Some([first, rest @ ..]) = reg.invalidate_regs => Self::lldb_cregs(res, VxRegs { container_regs: reg.container_regs, invalidate_regs: reg.invalidate_regs })
//@ opt cut3=if let Some([first, rest @ ..]) = reg.invalidate_regs => res.write_str(";") => Self::lldb_iregs(res, VxRegs { container_regs: reg.container_regs, invalidate_regs: reg.invalidate_regs })
//@ opt iife_fn=0
//@ opt sig=fn lldb_text(res: &mut ResponseWriter<'_, C>, reg: Register<'_>) -> Result<(), WErr<C>>
//@ ret r
//@ opt lits
//@ spec
    requires rok(old(res)), reg.ok(),
    ensures
        final(res).same(old(res)), final(res).wf(), r is Ok ==> rok(final(res)) && final(res).msg@ == lldb_app(old(res).msg@, reg),
//@ at start
    broadcast use group_plain;
//@ end
//@ fn handle_lldb_register_info
//@ opt iife=0 => Self::lldb_text(res, reg)
//@ opt callbacks=lldb_register_info
//@ opt q
//@ opt lits
//@ opt drop_use
//@ subst LLDBRegisterInfo => RegisterInfo
//@ ret r
//@ attr #[verifier::loop_isolation(false)]
//@ spec
    requires rok(old(res)), old(res).msg@.len() == 0,
    ensures *final(self) == *old(self), res_frame(old(res), final(res), r),
        lldb_spec::<C>(old(target)@, final(target)@, command, if r is Ok { Some(final(res).msg@) } else { None }, r),
//@ at start
    broadcast use group_plain;
    proof { assert(res.msg@ =~= Seq::<u8>::empty()); }
//@ loop 0
    invariant
        vx_cb.all() == cb0.all(), vx_cb.result() == cb0.result(), vx_cb.pos() <= vx_cb.all().len(),
        res.same(old(res)), res.wf(),
        cb0.all().len() <= 1, err is Err ==> vx_cb.pos() == 1,
        err is Ok ==> rok(res) && res.msg@ == if vx_cb.pos() == 0 { Seq::<u8>::empty() } else { lldb_item(Seq::empty(), vx_cb.all()[0]) },
    decreases vx_cb.all().len() - vx_cb.pos(),
//@ at loop0.before
    let ghost cb0 = vx_cb;
//@ end
//@ endimpl
