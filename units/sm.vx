//@ include stub.vx
//@ include hexspec.vx
//@ assume packet
//@ include packetfns.vx
//@ include packet2fns.vx
//@ assume -
//@ assume base_thr
//@ include featfns.vx
//@ include thrfns.vx
//@ assume base_res
//@ include opsfns.vx
//@ assume base_stop
//@ include stopfns.vx
//@ assume -
pub mod _recv { use super::*;
//@ assume recv
//@ include recvfns.vx
//@ assume -
}
pub use _recv::{RecvPacketStateMachine, ManagedSlice, CapacityError, frame_step, after_hash, in_body, has_hash, is_frame};
//@ include smfns.vx
