// ---- replies of the handlers
pub open spec fn silent<C: Connection>(s: St, f: St, reply: Option<Seq<u8>>, r: HR<C>) -> bool { f == s && reply == Some(Seq::<u8>::empty()) && r == HR::<C>::Ok(HandlerStatus::Handled) }
pub open spec fn rply<C: Connection>(m: Seq<u8>, r: HR<C>) -> Option<Seq<u8>> { if r is Ok { Some(m) } else { None } }
