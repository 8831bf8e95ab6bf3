// ---- host I/O: the target's answer, or its errno
//@ each F N = _vFile_close vFileClose ; _vFile_fstat vFileFstat ; _vFile_open vFileOpen ; _vFile_pread vFilePread ; _vFile_pwrite vFilePwrite ; _vFile_readlink vFileReadlink ; _vFile_setfs vFileSetfs ; _vFile_unlink vFileUnlink
pub mod @F@ { use super::*;
//@ item src/protocol/commands/@F@.rs @N@
}
//@ endeach
//@ item @expanded mod protocol / mod commands / mod ext / HostIo
pub type HE = HostIoError<VxError>;
pub open spec fn errno(e: HostIoErrno) -> int {
    match e {
        HostIoErrno::EPERM => 1, HostIoErrno::ENOENT => 2, HostIoErrno::EINTR => 4, HostIoErrno::EBADF => 9, HostIoErrno::EACCES => 13,
        HostIoErrno::EFAULT => 14, HostIoErrno::EBUSY => 16, HostIoErrno::EEXIST => 17, HostIoErrno::ENODEV => 19, HostIoErrno::ENOTDIR => 20,
        HostIoErrno::EISDIR => 21, HostIoErrno::EINVAL => 22, HostIoErrno::ENFILE => 23, HostIoErrno::EMFILE => 24, HostIoErrno::EFBIG => 27,
        HostIoErrno::ENOSPC => 28, HostIoErrno::ESPIPE => 29, HostIoErrno::EROFS => 30, HostIoErrno::ENAMETOOLONG => 91, HostIoErrno::EUNKNOWN => 9999,
    }
}
pub open spec fn numt(c: Seq<u8>, n: int, reply: Seq<u8>) -> bool { exists|w: Seq<u8>| #[trigger] is_num_text(w, n) && reply == c + hexs(w) }
// `F`, a number, and data
pub open spec fn datat(n: int, d: Seq<u8>, reply: Seq<u8>) -> bool { exists|w: Seq<u8>| #[trigger] is_num_text(w, n) && reply == ascii("F"@) + hexs(w) + ascii(";"@) + d }
pub open spec fn hio_err<C: Connection>(e: HE, reply: Option<Seq<u8>>, r: HR<C>) -> bool {
    match e {
        HostIoError::Errno(n) => io_err::<C>(r) || r == HR::<C>::Ok(HandlerStatus::Handled) && numt(ascii("F-1,"@), errno(n), reply->0),
        HostIoError::Fatal(e) => r == HR::<C>::Err(InternalError::TargetError(e)),
    }
}
// a number is the answer
pub open spec fn hio_num<C: Connection>(x: Result<int, HE>, reply: Option<Seq<u8>>, r: HR<C>) -> bool {
    match x { Ok(n) => io_err::<C>(r) || r == HR::<C>::Ok(HandlerStatus::Handled) && numt(ascii("F"@), n, reply->0), Err(e) => hio_err::<C>(e, reply, r) }
}
pub open spec fn hio_unit<C: Connection>(x: Result<(), HE>, reply: Option<Seq<u8>>, r: HR<C>) -> bool {
    match x { Ok(_) => io_err::<C>(r) || r == HR::<C>::Ok(HandlerStatus::Handled) && reply == Some(ascii("F0"@)), Err(e) => hio_err::<C>(e, reply, r) }
}
// the announced length is that of the data sent
pub open spec fn hio_data<C: Connection>(x: Result<usize, HE>, d: Seq<u8>, reply: Option<Seq<u8>>, r: HR<C>) -> bool {
    match x {
        Ok(n) => io_err::<C>(r) || if n <= d.len() { r == HR::<C>::Ok(HandlerStatus::Handled) && datat(n as int, escs(d.take(n as int)), reply->0) } else { r == HR::<C>::Err(InternalError::PacketBufferOverflow) },
        Err(e) => hio_err::<C>(e, reply, r),
    }
}
// big-endian, k bytes
pub open spec fn be(v: int, k: nat) -> Seq<u8> decreases k { if k == 0 { Seq::empty() } else { be(v / 256, (k - 1) as nat).push((v % 256) as u8) } }
// struct stat of the protocol, behind `p`
pub open spec fn stat_text(p: Seq<u8>, t: HostIoStat) -> Seq<u8> {
    p + escs(be(t.st_dev as int, 4)) + escs(be(t.st_ino as int, 4)) + escs(be(t.st_mode.0 as int, 4)) + escs(be(t.st_nlink as int, 4)) + escs(be(t.st_uid as int, 4)) + escs(be(t.st_gid as int, 4))
        + escs(be(t.st_rdev as int, 4)) + escs(be(t.st_size as int, 8)) + escs(be(t.st_blksize as int, 8)) + escs(be(t.st_blocks as int, 8))
        + escs(be(t.st_atime as int, 4)) + escs(be(t.st_mtime as int, 4)) + escs(be(t.st_ctime as int, 4))
}
pub open spec fn hio_stat<C: Connection>(x: Result<HostIoStat, HE>, reply: Option<Seq<u8>>, r: HR<C>) -> bool {
    match x { Ok(t) => io_err::<C>(r) || r == HR::<C>::Ok(HandlerStatus::Handled) && (exists|w: Seq<u8>| #[trigger] is_num_text(w, 64) && reply->0 == stat_text(ascii("F"@) + hexs(w) + ascii(";"@), t)), Err(e) => hio_err::<C>(e, reply, r) }
}
pub open spec fn hio_spec<C: Connection>(s: St, f: St, c: HostIo<'_>, room: int, reply: Option<Seq<u8>>, r: HR<C>) -> bool {
    let no = silent::<C>(s, f, reply, r);
    if !s.has.support_host_io { no } else {
        match c {
            HostIo::vFileOpen(c) => if !s.has.support_open { no } else { exists|x| f == #[trigger] s.did(Ev::HostIoOpen_open(c.filename@, c.flags, c.mode, x)) && hio_num::<C>(match x { Ok(n) => Ok(n as int), Err(e) => Err(e) }, reply, r) },
            HostIo::vFileClose(c) => if !s.has.support_close { no } else { exists|x| f == #[trigger] s.did(Ev::HostIoClose_close(c.fd, x)) && hio_unit::<C>(x, reply, r) },
            HostIo::vFilePread(c) => if !s.has.support_pread { no } else { exists|d: Seq<u8>, x| d.len() == room && f == #[trigger] s.did(Ev::HostIoPread_pread(c.fd, c.count, c.offset, d, x)) && hio_data::<C>(x, d, reply, r) },
            HostIo::vFilePwrite(c) => if !s.has.support_pwrite { no } else if !be_fits::<AUsize>(c.offset@) { f == s && r == HR::<C>::Err(InternalError::TargetMismatch) } else {
                exists|a: AUsize, x: Result<AUsize, HE>| be_num(c.offset@, a) && f == #[trigger] s.did(Ev::HostIoPwrite_pwrite(c.fd, a, c.data@, x)) && hio_num::<C>(match x { Ok(n) => Ok(n.val()), Err(e) => Err(e) }, reply, r)
            },
            HostIo::vFileFstat(c) => if !s.has.support_fstat { no } else { exists|x| f == #[trigger] s.did(Ev::HostIoFstat_fstat(c.fd, x)) && hio_stat::<C>(x, reply, r) },
            HostIo::vFileUnlink(c) => if !s.has.support_unlink { no } else { exists|x| f == #[trigger] s.did(Ev::HostIoUnlink_unlink(c.filename@, x)) && hio_unit::<C>(x, reply, r) },
            HostIo::vFileReadlink(c) => if !s.has.support_readlink { no } else { exists|d: Seq<u8>, x| d.len() == room && f == #[trigger] s.did(Ev::HostIoReadlink_readlink(c.filename@, d, x)) && hio_data::<C>(x, d, reply, r) },
            HostIo::vFileSetfs(c) => if !s.has.support_setfs { no } else { exists|x| f == #[trigger] s.did(Ev::HostIoSetfs_setfs(c.fs, x)) && hio_unit::<C>(x, reply, r) },
        }
    }
}
pub open spec fn hio_room(c: HostIo<'_>) -> int { match c { HostIo::vFilePread(c) => c.buf@.len() as int, HostIo::vFileReadlink(c) => c.buf@.len() as int, _ => 0 } }
// u32::to_be_bytes, u64::to_be_bytes, size_of::<HostIoStat>
#[verifier::external_body]
pub fn vx_stat_size() -> (r: usize) ensures r == 64 { unimplemented!() }
pub trait VxBe: Sized { type B; spec fn vbe(self, r: Self::B) -> bool; fn vx_be(self) -> (r: Self::B) ensures self.vbe(r); }
//@ each T N = u32 4 ; u64 8
impl VxBe for @T@ {
    type B = [u8; @N@];
    open spec fn vbe(self, r: [u8; @N@]) -> bool { r@ == be(self as int, @N@) }
    #[verifier::external_body]
    fn vx_be(self) -> (r: [u8; @N@]) { unimplemented!() }
}
//@ endeach
//@ impl src/stub/core_impl/host_io.rs GdbStubImpl<T, C> ==> impl<C: Connection> GdbStubImpl<T, C>
//@ fn handle_host_io
//@ subst core :: mem :: size_of :: < HostIoStat > ( ) => vx_stat_size()
//@ subst . to_be_bytes ( ) => .vx_be()
//@ opt arm=HostIo::vFileOpen
//@ opt sig=fn hio_open(&mut self, res: &mut ResponseWriter<'_, C>, ops: &mut HostIoDyn, cmd: _vFile_open::vFileOpen<'_>) -> Result<HandlerStatus, InternalError<VxError, C::Error>>
//@ ret r
//@ opt q
//@ opt lits
//@ spec
    requires rok(old(res)), old(res).msg@.len() == 0, old(ops)@.has.support_host_io, old(ops)@.has.support_open,
    ensures *final(self) == *old(self), res_frame(old(res), final(res), r),
        hio_spec::<C>(old(ops)@, final(ops)@, HostIo::vFileOpen(cmd), hio_room(HostIo::vFileOpen(cmd)), rply::<C>(final(res).msg@, r), r),
//@ at start
    broadcast use {group_plain, ausize_unsigned};
    proof { assert(res.msg@ =~= Seq::<u8>::empty()); assert forall|t: Seq<u8>| (#[trigger] (res.msg@ + t)) == t by { assert(res.msg@ + t =~= t); } }
//@ end
//@ fn handle_host_io
//@ subst core :: mem :: size_of :: < HostIoStat > ( ) => vx_stat_size()
//@ subst . to_be_bytes ( ) => .vx_be()
//@ opt arm=HostIo::vFileClose
//@ opt sig=fn hio_close(&mut self, res: &mut ResponseWriter<'_, C>, ops: &mut HostIoDyn, cmd: _vFile_close::vFileClose) -> Result<HandlerStatus, InternalError<VxError, C::Error>>
//@ ret r
//@ opt q
//@ opt lits
//@ spec
    requires rok(old(res)), old(res).msg@.len() == 0, old(ops)@.has.support_host_io, old(ops)@.has.support_close,
    ensures *final(self) == *old(self), res_frame(old(res), final(res), r),
        hio_spec::<C>(old(ops)@, final(ops)@, HostIo::vFileClose(cmd), hio_room(HostIo::vFileClose(cmd)), rply::<C>(final(res).msg@, r), r),
//@ at start
    broadcast use {group_plain, ausize_unsigned};
    proof { assert(res.msg@ =~= Seq::<u8>::empty()); assert forall|t: Seq<u8>| (#[trigger] (res.msg@ + t)) == t by { assert(res.msg@ + t =~= t); } }
//@ end
//@ fn handle_host_io
//@ subst core :: mem :: size_of :: < HostIoStat > ( ) => vx_stat_size()
//@ subst . to_be_bytes ( ) => .vx_be()
//@ opt arm=HostIo::vFilePread
//@ opt sig=fn hio_pread(&mut self, res: &mut ResponseWriter<'_, C>, ops: &mut HostIoDyn, cmd: _vFile_pread::vFilePread<'_>) -> Result<HandlerStatus, InternalError<VxError, C::Error>>
//@ ret r
//@ opt q
//@ opt lits
//@ spec
    requires rok(old(res)), old(res).msg@.len() == 0, old(ops)@.has.support_host_io, old(ops)@.has.support_pread,
    ensures *final(self) == *old(self), res_frame(old(res), final(res), r),
        hio_spec::<C>(old(ops)@, final(ops)@, HostIo::vFilePread(cmd), hio_room(HostIo::vFilePread(cmd)), rply::<C>(final(res).msg@, r), r),
//@ at start
    broadcast use {group_plain, ausize_unsigned};
    proof { assert(res.msg@ =~= Seq::<u8>::empty()); assert forall|t: Seq<u8>| (#[trigger] (res.msg@ + t)) == t by { assert(res.msg@ + t =~= t); } }
//@ end
//@ fn handle_host_io
//@ subst core :: mem :: size_of :: < HostIoStat > ( ) => vx_stat_size()
//@ subst . to_be_bytes ( ) => .vx_be()
//@ opt arm=HostIo::vFilePwrite
//@ opt sig=fn hio_pwrite(&mut self, res: &mut ResponseWriter<'_, C>, ops: &mut HostIoDyn, cmd: _vFile_pwrite::vFilePwrite<'_>) -> Result<HandlerStatus, InternalError<VxError, C::Error>>
//@ ret r
//@ opt q
//@ opt lits
//@ spec
    requires rok(old(res)), old(res).msg@.len() == 0, old(ops)@.has.support_host_io, old(ops)@.has.support_pwrite,
    ensures *final(self) == *old(self), res_frame(old(res), final(res), r),
        hio_spec::<C>(old(ops)@, final(ops)@, HostIo::vFilePwrite(cmd), hio_room(HostIo::vFilePwrite(cmd)), rply::<C>(final(res).msg@, r), r),
//@ at start
    broadcast use {group_plain, ausize_unsigned};
    proof { assert(res.msg@ =~= Seq::<u8>::empty()); assert forall|t: Seq<u8>| (#[trigger] (res.msg@ + t)) == t by { assert(res.msg@ + t =~= t); } }
//@ end
//@ fn handle_host_io
//@ subst core :: mem :: size_of :: < HostIoStat > ( ) => vx_stat_size()
//@ subst . to_be_bytes ( ) => .vx_be()
//@ opt arm=HostIo::vFileFstat
//@ opt sig=fn hio_fstat(&mut self, res: &mut ResponseWriter<'_, C>, ops: &mut HostIoDyn, cmd: _vFile_fstat::vFileFstat) -> Result<HandlerStatus, InternalError<VxError, C::Error>>
//@ ret r
//@ opt q
//@ opt lits
//@ spec
    requires rok(old(res)), old(res).msg@.len() == 0, old(ops)@.has.support_host_io, old(ops)@.has.support_fstat,
    ensures *final(self) == *old(self), res_frame(old(res), final(res), r),
        hio_spec::<C>(old(ops)@, final(ops)@, HostIo::vFileFstat(cmd), hio_room(HostIo::vFileFstat(cmd)), rply::<C>(final(res).msg@, r), r),
//@ at start
    broadcast use {group_plain, ausize_unsigned};
    proof { assert(res.msg@ =~= Seq::<u8>::empty()); assert forall|t: Seq<u8>| (#[trigger] (res.msg@ + t)) == t by { assert(res.msg@ + t =~= t); } }
//@ end
//@ fn handle_host_io
//@ subst core :: mem :: size_of :: < HostIoStat > ( ) => vx_stat_size()
//@ subst . to_be_bytes ( ) => .vx_be()
//@ opt arm=HostIo::vFileUnlink
//@ opt sig=fn hio_unlink(&mut self, res: &mut ResponseWriter<'_, C>, ops: &mut HostIoDyn, cmd: _vFile_unlink::vFileUnlink<'_>) -> Result<HandlerStatus, InternalError<VxError, C::Error>>
//@ ret r
//@ opt q
//@ opt lits
//@ spec
    requires rok(old(res)), old(res).msg@.len() == 0, old(ops)@.has.support_host_io, old(ops)@.has.support_unlink,
    ensures *final(self) == *old(self), res_frame(old(res), final(res), r),
        hio_spec::<C>(old(ops)@, final(ops)@, HostIo::vFileUnlink(cmd), hio_room(HostIo::vFileUnlink(cmd)), rply::<C>(final(res).msg@, r), r),
//@ at start
    broadcast use {group_plain, ausize_unsigned};
    proof { assert(res.msg@ =~= Seq::<u8>::empty()); assert forall|t: Seq<u8>| (#[trigger] (res.msg@ + t)) == t by { assert(res.msg@ + t =~= t); } }
//@ end
//@ fn handle_host_io
//@ subst core :: mem :: size_of :: < HostIoStat > ( ) => vx_stat_size()
//@ subst . to_be_bytes ( ) => .vx_be()
//@ opt arm=HostIo::vFileReadlink
//@ opt sig=fn hio_readlink(&mut self, res: &mut ResponseWriter<'_, C>, ops: &mut HostIoDyn, cmd: _vFile_readlink::vFileReadlink<'_>) -> Result<HandlerStatus, InternalError<VxError, C::Error>>
//@ ret r
//@ opt q
//@ opt lits
//@ spec
    requires rok(old(res)), old(res).msg@.len() == 0, old(ops)@.has.support_host_io, old(ops)@.has.support_readlink,
    ensures *final(self) == *old(self), res_frame(old(res), final(res), r),
        hio_spec::<C>(old(ops)@, final(ops)@, HostIo::vFileReadlink(cmd), hio_room(HostIo::vFileReadlink(cmd)), rply::<C>(final(res).msg@, r), r),
//@ at start
    broadcast use {group_plain, ausize_unsigned};
    proof { assert(res.msg@ =~= Seq::<u8>::empty()); assert forall|t: Seq<u8>| (#[trigger] (res.msg@ + t)) == t by { assert(res.msg@ + t =~= t); } }
//@ end
//@ fn handle_host_io
//@ subst core :: mem :: size_of :: < HostIoStat > ( ) => vx_stat_size()
//@ subst . to_be_bytes ( ) => .vx_be()
//@ opt arm=HostIo::vFileSetfs
//@ opt sig=fn hio_setfs(&mut self, res: &mut ResponseWriter<'_, C>, ops: &mut HostIoDyn, cmd: _vFile_setfs::vFileSetfs) -> Result<HandlerStatus, InternalError<VxError, C::Error>>
//@ ret r
//@ opt q
//@ opt lits
//@ spec
    requires rok(old(res)), old(res).msg@.len() == 0, old(ops)@.has.support_host_io, old(ops)@.has.support_setfs,
    ensures *final(self) == *old(self), res_frame(old(res), final(res), r),
        hio_spec::<C>(old(ops)@, final(ops)@, HostIo::vFileSetfs(cmd), hio_room(HostIo::vFileSetfs(cmd)), rply::<C>(final(res).msg@, r), r),
//@ at start
    broadcast use {group_plain, ausize_unsigned};
    proof { assert(res.msg@ =~= Seq::<u8>::empty()); assert forall|t: Seq<u8>| (#[trigger] (res.msg@ + t)) == t by { assert(res.msg@ + t =~= t); } }
//@ end
//@ fn handle_host_io
//@ opt call0=HostIo::vFileOpen => self.hio_open(res, ops, cmd)
//@ opt call1=HostIo::vFileClose => self.hio_close(res, ops, cmd)
//@ opt call2=HostIo::vFilePread => self.hio_pread(res, ops, cmd)
//@ opt call3=HostIo::vFilePwrite => self.hio_pwrite(res, ops, cmd)
//@ opt call4=HostIo::vFileFstat => self.hio_fstat(res, ops, cmd)
//@ opt call5=HostIo::vFileUnlink => self.hio_unlink(res, ops, cmd)
//@ opt call6=HostIo::vFileReadlink => self.hio_readlink(res, ops, cmd)
//@ opt call7=HostIo::vFileSetfs => self.hio_setfs(res, ops, cmd)
//@ ret r
//@ opt q
//@ opt guards
//@ spec
    requires rok(old(res)), old(res).msg@.len() == 0,
    ensures *final(self) == *old(self), res_frame(old(res), final(res), r),
        hio_spec::<C>(old(target)@, final(target)@, command, hio_room(command), rply::<C>(final(res).msg@, r), r),
//@ at start
    proof { assert(res.msg@ =~= Seq::<u8>::empty()); }
//@ end
//@ endimpl
