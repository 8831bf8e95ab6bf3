// the command layer: what it is given is all that matters here (unit cmd decides how it parses)
#[verifier::external_body]
pub struct Command<'a> { x: core::marker::PhantomData<&'a u8> }
impl<'a> Command<'a> {
    // the packet body this command was parsed from
    pub uninterp spec fn source(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn from_packet<T: Target>(target: &mut T, buf: PacketBuf<'a>) -> (r: Option<Command<'a>>)
        requires buf.wf(), buf.start() == 1,
        ensures r is Some ==> r->0.source() == buf.body(), final(target).asked(old(target)),
    { unimplemented!() }
}
//@ item src/protocol/packet.rs Packet
//@ impl src/protocol/packet.rs Packet<'a>
//@ fn from_buf
//@ ret r
//@ spec
    ensures
        final(target).asked(old(target)),
        // a command is exactly what stood in a packet with a matching checksum
        r matches Ok(Packet::Command(c)) ==> old(buf)@.len() > 0 && old(buf)@[0] == 0x24 && pkt_body(old(buf)@) == Some(c.source()),
        r matches Ok(Packet::Ack) ==> old(buf)@.len() > 0 && old(buf)@[0] == 0x2b,
        r matches Ok(Packet::Nack) ==> old(buf)@.len() > 0 && old(buf)@[0] == 0x2d,
        r matches Ok(Packet::Interrupt) ==> old(buf)@.len() > 0 && old(buf)@[0] == 0x03,
        old(buf)@.len() > 0 && old(buf)@[0] == 0x2b ==> r matches Ok(Packet::Ack),
        old(buf)@.len() > 0 && old(buf)@[0] == 0x2d ==> r matches Ok(Packet::Nack),
        old(buf)@.len() > 0 && old(buf)@[0] == 0x03 ==> r matches Ok(Packet::Interrupt),
        old(buf)@.len() > 0 && old(buf)@[0] == 0x24 && pkt_body(old(buf)@) is Some ==> (r matches Ok(Packet::Command(c))) || (r is Err && r->Err_0 is MalformedCommand),
        r is Err && r->Err_0 is MalformedCommand ==> old(buf)@.len() > 0 && old(buf)@[0] == 0x24 && pkt_body(old(buf)@) is Some,
//@ at start
    proof { target.asked_refl(); }
//@ end
//@ endimpl
