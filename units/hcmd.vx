// the packets sent by the handler itself
pub open spec fn side_of<C: Connection>(o: &ResponseWriter<'_, C>, n: &ResponseWriter<'_, C>) -> Seq<u8> { n.start().skip(o.start().len() as int) }
#[verifier::prophetic]
pub open spec fn cmd_frame<C: Connection>(o: &ResponseWriter<'_, C>, n: &ResponseWriter<'_, C>, h: HR<C>) -> bool {
    &&& n.rle_enabled == o.rle_enabled && *final(n.inner) == *final(o.inner)
    &&& h is Ok || (h matches Err(InternalError::NonFatalError(_))) ==> rok(n) && o.start().is_prefix_of(n.start())
    // neither an error reply nor a deferred reply is preceded by half of another one
    &&& (h matches Err(InternalError::NonFatalError(_))) || (h matches Ok(HandlerStatus::DeferredStopReason)) ==> n.msg@.len() == 0
}
