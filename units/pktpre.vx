// ---- specification
pub open spec fn sum8(s: Seq<u8>) -> u8
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { ((sum8(s.drop_last()) as int + s.last() as int) % 256) as u8 }
}
//@ item src/protocol/packet.rs PacketParseError
