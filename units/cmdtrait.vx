// ---- commands: the interface of every parser
pub trait ParseCommand<'a>: Sized {
    // the values the command carries
    type V;
    spec fn vw(&self) -> Self::V;
    // what stands behind the command's name
    spec fn syntax(body: Seq<u8>) -> Option<Self::V>;
    spec fn name_len() -> nat;
    // what the command may use as scratch space
    spec fn scratch(&self, buf: &PacketBuf<'a>) -> bool;
    fn from_packet(buf: PacketBuf<'a>) -> (r: Option<Self>)
        requires buf.wf(), buf.start() == 1 + Self::name_len(),
        ensures
            r is Some <==> Self::syntax(buf.body()) is Some,
            r is Some ==> Self::syntax(buf.body()) == Some((r->0).vw()),
            r is Some ==> (r->0).scratch(&buf);
}
//@ subst crate :: common :: Pid => Pid
//@ include cmdspec.vx
